// C21: asynchronous name resolution, under a controlled scheduler with a simulated resolver (sched.hpp).
#include <crab/crab.hpp>
#include <arpa/inet.h>
#include "sched.hpp"

const char *const PROP_ID   = "C21";
const char *const PROP_RULE =
    "A case runs 1-3 crab::Thread run loops, each with 1-3 DNSResolver slots; timers and answer handlers issue, cancel, repeat and destroy "
    "resolutions, and loops may end with resolutions open, while the simulated system resolver takes generated time and returns generated "
    "addresses or failures. Which thread continues at every lock, wake-up, wait and resolver call is chosen by the case. Non-trivial: at "
    "least 2 answers delivered and at least one resolution cancelled, replaced or destroyed while open.";

namespace {
using sched::Hidden;
using sched::Ign;
struct Req {
	int id = 0;
	std::string host;
	uint16_t port = 0;
	bool v4 = false, v6 = false;
	bool asked = false, failed = false;
	std::vector<std::string> result;  // texts of the addresses
	int calls = 0;
};
struct Slot;
struct Box {
	int id = 0;
	std::unique_ptr<crab::Thread> th;
	std::thread::id tid;
	std::vector<std::unique_ptr<Slot>> slots;
	std::unique_ptr<crab::Timer> timer;
	Hidden<bool> stop{false}, ended{false}, leave_open{false};
};
struct Slot {
	int id   = 0;
	Box *box = nullptr;
	std::unique_ptr<crab::DNSResolver> r;
	Hidden<Req *> open{nullptr};
};
struct Hist {
	pbt::Gen &g;
	pbt::Ctx &c;
	std::vector<std::unique_ptr<Box>> boxes;
	std::vector<std::unique_ptr<Req>> reqs;
	int budget = 0;
	int answers = 0, dropped = 0, dropped_running = 0, failures = 0, own = 0, again = 0, ended_open = 0;
	Hidden<int> ready;
	Hist(pbt::Gen &g_, pbt::Ctx &c_) : g(g_), c(c_) {}
	void bad(const char *sig, const std::string &m) { pbt::fatal(sig, m); }
	void log(const std::string &s) { PBT_LOG(c, s << "\n"); }
	std::string name(Slot *s) { return "resolver " + std::to_string(s->box->id) + "." + std::to_string(s->id); }
	bool spend() {
		Ign i;
		if (budget <= 0)
			return false;
		--budget;
		return true;
	}
	void forget(Slot *s) {
		Req *q = s->open.exchange(nullptr);
		Ign i;
		if (q) {
			++dropped;
			if (q->asked)
				++dropped_running;
		}
	}
	void answer(Slot *s, Req *q, const std::vector<crab::Address> &names) {
		Ign i;
		++q->calls;
		++answers;
		log("answer for " + q->host + " to " + name(s) + ": " + std::to_string(names.size()) + " addresses");
		if (std::this_thread::get_id() != s->box->tid)
			bad("wrong-thread", "the answer for " + q->host + " is delivered in a thread that is not its loop's");
		if (q->calls > 1)
			bad("answered-twice", "the answer for " + q->host + " was delivered twice");
	}
	void check_answer(Slot *s, Req *q, std::vector<std::string> got) {
		Ign i;
		if (s->open != q)
			bad("answer-after-cancel", name(s) + " is answered for a resolution that is no longer open, expected " + (s->open ? (*s->open).host : std::string("none")));
		if (!q->asked && (q->v4 || q->v6))
			bad("wrong-result", "answer for " + q->host + " delivered, but the system resolver was not asked");
		if (got != q->result) {
			std::string m = "answer for " + q->host + ": got";
			for (auto &x : got)
				m += " " + x;
			m += ", the system resolver returned";
			for (auto &x : q->result)
				m += " " + x;
			bad("wrong-result", m);
		}
	}
	void on_answer(Slot *s, const std::vector<crab::Address> &names) {
		Req *q = s->open;
		if (!q)
			bad("answer-after-cancel", name(s) + " is answered although nothing is open");
		answer(s, q, names);
		std::vector<std::string> got;
		for (auto &a : names)
			got.push_back(std::to_string(a.impl_get_sockaddr()->sa_family == AF_INET6) + "/" + a.to_string());
		check_answer(s, q, got);
		s->open = nullptr;
		if (s->r->is_open())
			bad("is-open", "is_open() is true in the handler that delivers the answer");
		switch (sched::choose(5)) {
		case 0:
			if (spend()) {
				{
					Ign i;
					++again;
				}
				resolve(s);
				// the answer stays as it was while its handler runs, whatever happens to the next resolution
				sched::sleep_ns(int64_t(sched::choose(4)) * 300000000);
				std::vector<std::string> now;
				for (auto &a : names)
					now.push_back(std::to_string(a.impl_get_sockaddr()->sa_family == AF_INET6) + "/" + a.to_string());
				if (now != got)
					bad("answer-changed", "the answer for " + q->host + " changed while its handler was running");
			}
			break;
		case 1: {
			{
				Ign i;
				++own;
				log(name(s) + " destroyed in its handler");
			}
			s->r.reset();
			break;
		}
		case 2:
			if (spend())
				action(s->box);
			break;
		case 3: s->r->cancel(); break;
		default: break;
		}
	}
	void resolve(Slot *s) {
		Req *q;
		{
			Ign i;
			reqs.emplace_back(new Req);
			q       = reqs.back().get();
			q->id   = int(reqs.size());
			q->host = "h" + std::to_string(q->id) + ".test";
			q->port = uint16_t(sched::choose(65536));
			auto f  = sched::choose(8);
			q->v4   = f != 7 && f != 6;
			q->v6   = f != 7 && f != 5 && f != 4;
			log(name(s) + " resolves " + q->host + (q->v4 ? " v4" : "") + (q->v6 ? " v6" : ""));
		}
		if (!s->r)
			s->r.reset(new crab::DNSResolver([this, s](const std::vector<crab::Address> &names) { on_answer(s, names); }));
		forget(s);
		s->open = q;
		std::string h;
		uint16_t p;
		bool v4, v6;
		{
			Ign i;
			h = std::string(q->host.data(), q->host.size());
			p = q->port, v4 = q->v4, v6 = q->v6;
		}
		s->r->resolve(h, p, v4, v6);
		if (!s->r->is_open())
			bad("is-open", "is_open() is false after resolve()");
	}
	void action(Box *b) {
		Slot *s;
		{
			Ign i;
			s = b->slots[sched::choose(b->slots.size())].get();
		}
		switch (sched::choose(6)) {
		case 0:
		case 1:
		case 2: resolve(s); break;
		case 3:
			if (s->r) {
				{
					Ign i;
					log("cancel " + name(s));
				}
				s->r->cancel();
				forget(s);
				if (s->r->is_open())
					bad("is-open", "is_open() is true after cancel()");
			}
			break;
		case 4: {
			{
				Ign i;
				log("destroy " + name(s));
			}
			s->r.reset();
			forget(s);
			break;
		}
		default: crab::RunLoop::current()->cancel();
		}
	}
	void loop_main(Box *b) {
		{
			Ign i;
			b->tid = std::this_thread::get_id();
		}
		b->timer.reset(new crab::Timer([this, b] {
			if (!spend())
				return;
			for (int n = 1 + int(sched::choose(3)); n; --n)
				action(b);
			b->timer->once(double(sched::choose(4)) * 0.2);
		}));
		b->timer->once(0);
		++ready;
		while (!b->stop)
			crab::RunLoop::current()->run();
		{
			Ign i;
			log("loop " + std::to_string(b->id) + " ends");
		}
		b->timer.reset();
		for (auto &s : b->slots) {
			if (s->open) {
				Ign i;
				++ended_open;
			}
			s->r.reset();
			forget(s.get());
		}
		b->ended = true;
	}
	// called in the resolver thread, hidden from TSan
	int system_resolver(const char *node, const char *service, const addrinfo *hints, addrinfo **res, int64_t &delay) {
		Req *q = nullptr;
		for (auto &x : reqs)
			if (x->host == node)
				q = x.get();
		if (!q)
			bad("wrong-query", std::string("the system resolver is asked for [") + node + "]");
		if (q->asked)
			bad("asked-twice", "the system resolver is asked twice for " + q->host);
		q->asked = true;
		if (std::to_string(q->port) != service)
			bad("wrong-query", "asked for service " + std::string(service) + " instead of port " + std::to_string(q->port));
		int want = q->v4 && q->v6 ? AF_UNSPEC : q->v4 ? AF_INET : AF_INET6;
		if (hints->ai_family != want)
			bad("wrong-query", "asked for address family " + std::to_string(hints->ai_family) + " instead of " + std::to_string(want));
		auto ch = [&](uint64_t n) { return sched::choose(n); };
		delay   = int64_t(ch(4)) * 200000000;
		log("system resolver asked for " + q->host);
		if (ch(6) == 5) {
			++failures;
			return EAI_NONAME;
		}
		addrinfo **tail = res;
		int n           = int(ch(4));
		for (int i = 0; i != n; ++i) {
			auto a = static_cast<addrinfo *>(calloc(1, sizeof(addrinfo)));
			bool six = want == AF_INET6 || (want == AF_UNSPEC && ch(2));
			a->ai_socktype = SOCK_STREAM;
			char text[64];
			if (six) {
				auto s         = static_cast<sockaddr_in6 *>(calloc(1, sizeof(sockaddr_in6)));
				s->sin6_family = AF_INET6;
				s->sin6_port   = htons(q->port);
				for (auto &x : s->sin6_addr.s6_addr)
					x = uint8_t(ch(256));
				s->sin6_addr.s6_addr[0] = 0x20;
				a->ai_family = AF_INET6;
				a->ai_addr = reinterpret_cast<sockaddr *>(s);
				a->ai_addrlen = sizeof(*s);
				inet_ntop(AF_INET6, &s->sin6_addr, text, sizeof(text));
			} else {
				auto s        = static_cast<sockaddr_in *>(calloc(1, sizeof(sockaddr_in)));
				s->sin_family = AF_INET;
				s->sin_port   = htons(q->port);
				s->sin_addr.s_addr = uint32_t(ch(0));
				a->ai_family = AF_INET;
				a->ai_addr = reinterpret_cast<sockaddr *>(s);
				a->ai_addrlen = sizeof(*s);
				inet_ntop(AF_INET, &s->sin_addr, text, sizeof(text));
			}
			if (ch(12) == 11) {  // an entry of a family the library does not support
				a->ai_family          = AF_UNIX;
				a->ai_addr->sa_family = AF_UNIX;
			} else
				q->result.push_back(std::to_string(six) + "/" + text + ":" + std::to_string(q->port));
			*tail = a;
			tail  = &a->ai_next;
		}
		return 0;
	}
	bool idle() {
		for (auto &b : boxes) {
			if (b->ended || b->leave_open)
				continue;
			for (auto &s : b->slots)
				if (s->open)
					return false;
		}
		return budget <= 0;
	}
	void run() {
		budget = 3 + int(g.below(20));
		sched::S->spurious_pct = g.below(4) == 3 ? 20 : 0;
		int nb = 1 + int(g.below(3));
		for (int i = 0; i != nb; ++i) {
			boxes.emplace_back(new Box);
			auto b = boxes.back().get();
			b->id  = i;
			if (g.below(4) == 3)
				b->leave_open = true;
			for (int k = 1 + int(g.below(3)); k; --k) {
				b->slots.emplace_back(new Slot);
				b->slots.back()->id  = int(b->slots.size()) - 1;
				b->slots.back()->box = b;
			}
		}
		sched::S->resolver = [this](const char *n, const char *s, const addrinfo *h, addrinfo **r, int64_t &d) { return system_resolver(n, s, h, r, d); };
		for (auto &b : boxes) {
			auto p = b.get();
			p->th.reset(new crab::Thread([this, p] { loop_main(p); }));
		}
		for (auto &b : boxes)
			if (b->leave_open) {
				sched::sleep_ns(int64_t(sched::choose(6)) * 150000000);
				b->stop = true;
				b->th.reset();
				if (!b->ended)
					bad("thread-not-joined", "crab::Thread was destroyed but its function did not end");
			}
		// loops keep their timers while there is budget; every open resolution must be answered
		bool some = false;
		for (auto &b : boxes)
			some |= !b->leave_open;
		if (some)
			sched::wait_until("answers", [this] { return idle(); });
		for (auto &b : boxes) {
			b->stop = true;
			b->th.reset();
		}
	}
};
}  // namespace

void prop_case(pbt::Gen &g, pbt::Ctx &c) {
	static bool started = false;
	if (!started) {  // the resolver thread lives as long as the process: it starts before the case's first choice
		started = true;
		pbt::Gen zero(std::vector<uint64_t>{}, 0);
		sched::Case k(zero, c);
		{
			crab::RunLoop loop;
			crab::DNSResolver r([](const std::vector<crab::Address> &) {});
			r.resolve("warm-up.test", 1, true, false);
			r.cancel();
		}
		k.drain();
	}
	sched::Case k(g, c);
	{
		Hist h(g, c);
		h.run();
		k.drain();
		sched::S->resolver = nullptr;
		sched::S->spurious_pct = 0;
		if (h.dropped)
			c.cls("cancelled, replaced or destroyed while open");
		if (h.dropped_running)
			c.cls("dropped while the system resolver works on it or after");
		if (h.failures)
			c.cls("resolver failure");
		if (h.own)
			c.cls("destroyed in own handler");
		if (h.again)
			c.cls("resolves again in handler");
		if (h.ended_open)
			c.cls("loop ends with open resolutions");
		if (h.boxes.size() > 1)
			c.cls("several loops");
		if (h.answers >= 2 && h.dropped)
			c.nontrivial();
	}
}
