// C35: the statistics of a loop equal what was really asked from the system and moved by it.
#include <crab/crab.hpp>
#include <list>
#include <set>
#include <sstream>
#include "../sim.hpp"
const char *const PROP_ID   = "C35";
const char *const PROP_RULE =
    "1-3 TCP sockets and 0-2 UDP objects read (into one or two buffers, also of size 0) and write (from one or several buffers) against peers that send, stop taking data, end or reset; waits are interrupted, asynchronous errors are "
    "reported, the application adds records of its own (up to and over the limit), clears and prints them at any time; non-trivial: calls of at least 3 kinds were made, one of them without success, and the records were cleared or "
    "printed in between";
using namespace crab;
using namespace pbt;
namespace {
struct Rec {
	int64_t tm;
	std::string type;
	int fd, count;
	bool any_fd;
};
struct Hist;
struct Tcp {
	Hist *h;
	int id = 0;
	std::unique_ptr<TCPSocket> s;
	sim::EndP raw;
	size_t to_send = 0, peer_sends = 0;
	int peer_end = 0;
	Timer later;
	explicit Tcp(Hist *h) : h(h), later([this] { pump(); }) {}
	void pump();
};
struct Udp {
	Hist *h;
	std::unique_ptr<UDPReceiver> rx;
	std::unique_ptr<UDPTransmitter> tx;
	size_t to_send = 0;
	Address to{"127.0.0.1", 6001};
	Timer later;
	explicit Udp(Hist *h) : h(h), later([this] { pump(); }) {}
	void pump();
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	std::list<Tcp> tcps;
	std::list<Udp> udps;
	size_t counts[5] = {}, sizes[5] = {};
	std::vector<Rec> recs;
	std::set<int> kinds;
	bool vec = false, refused = false, cleared = false, dropped = false;
	size_t udp_calls = 0, foreign = 0;
	int udp_fd = -1;
	ssize_t udp_last = 0;
	Timer user;
	size_t users = 0;
	void fail(const std::string &sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	void rec(const char *type, int fd, long count, bool any_fd = false) {
		if (recs.size() < PerformanceStats::MAX_PERFORMANCE_RECORDS)
			recs.push_back({w.now_ns, type, fd, int(count), any_fd});
		else
			dropped = true;
	}
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_), user([this] { on_user(); }) {
		w.max_step_ns = g.flag() ? 0 : 1500000000LL;
		w.eintr_pct   = g.chance(1, 3) ? 10 : 0;
		w.partial_pct = g.flag() ? 30 : 0;
		w.icmp        = g.flag();
		w.on_io       = [this](int kind, int fd, size_t asked, ssize_t result) {
			if (kind == 2 || kind == 3) {
				++udp_calls, udp_fd = fd, udp_last = result;
				return;
			}
			if (kind == 4 && result < 0)
				return;  // interrupted
			kinds.insert(kind);
			counts[kind] += 1;
			sizes[kind] += result > 0 ? size_t(result) : 0;
			refused |= result < 0;
			if (kind == 4) {
				rec("epoll_wait", fd, result);
				for (auto m : w.last_events)
					rec("  event", 0, int(m), true);
				return;
			}
			rec(kind == 0 ? "recv" : vec ? "sendV" : "send", fd, long(asked));
			rec(kind == 0 ? "R(recv)" : vec ? "R(sendV)" : "R(send)", fd, result);
		};
		w.on_connect = [this](const sockaddr_storage &a, sim::EndP raw) {
			for (auto &t : tcps)
				if (sim::port_of(a) == 100 + t.id) {
					t.raw    = raw;
					raw->raw = raw->nonblock = true;
					if (g.flag())
						if (auto p = raw->peer)
							p->sndbuf = 100 + g.len(3000), p->rcvbuf = 100 + g.len(3000);
				}
			return 0;
		};
		w.actions = [this]() -> size_t { return acting() + (foreign ? 1 : 0); };
		w.do_action = [this](size_t i) {
			if (i == acting()) {
				--foreign;
				sim::Datagram d;
				d.data = g.blob(g.below(40));
				d.from = sim::make_addr(0x0A000001, 7000);
				d.to   = udps.front().rx ? sim::make_addr(0x7F000001, 5000) : sim::make_addr(0x7F000001, 6000);
				w.udp_net.push_back(d);
				w.udp_senders.emplace_back();
				return;
			}
			for (auto &t : tcps)
				if (can_act(t) && !i--)
					return act(t);
		};
		for (size_t n = 1 + g.below(3); n--;) {
			tcps.emplace_back(this);
			Tcp &t     = tcps.back();
			t.id       = int(tcps.size());
			t.to_send  = g.below(4000);
			t.peer_sends = g.below(12);
			t.peer_end = int(g.below(4));
			t.s.reset(new TCPSocket([&t] { t.pump(); }));
			if (!t.s->connect(Address("10.0.0.1", uint16_t(100 + t.id))))
				fail("connect", "connect() failed");
		}
		for (size_t n = g.below(3); n--;) {
			udps.emplace_back(this);
			Udp &u    = udps.back();
			u.to_send = g.below(8);
			if (udps.size() == 1)
				u.rx.reset(new UDPReceiver(Address("127.0.0.1", 5000), [&u] { u.pump(); })), u.to = Address("127.0.0.1", 6000);
			else
				u.tx.reset(new UDPTransmitter(Address("127.0.0.1", g.flag() ? 5000 : 6000), [&u] { u.pump(); }));
			u.later.once(0.1);
			foreign = g.below(5);
		}
		users = g.below(12);
		user.once(0);
		w.on_quiet = [this](int) {
			bool did = false;
			for (auto &t : tcps)
				if (t.raw && t.raw->paused)
					t.raw->paused = false, did = true;
			if (did)
				return true;
			if (!w.quiet_for(30))
				return false;
			loop.cancel();
			return true;
		};
	}
	bool can_act(const Tcp &t) const { return t.raw && !t.raw->wshut && !t.raw->orphan && !t.raw->dead && (t.peer_sends || t.peer_end > 1); }
	size_t acting() const {
		size_t n = 0;
		for (auto &t : tcps)
			n += can_act(t);
		return n;
	}
	void act(Tcp &t) {
		if (g.chance(1, 6))
			t.raw->paused = !t.raw->paused;
		t.raw->take();
		if (t.peer_sends) {
			--t.peer_sends;
			t.raw->send(g.blob(1 + g.len(2000)));
		} else if (t.peer_end == 2)
			t.raw->fin();
		else
			t.raw->rst();
	}
	void on_user() {
		if (!users)
			return;
		--users;
		w.last_activity_ns = w.now_ns;
		switch (g.pick({3, 2, 2, 4})) {
		case 0: {
			size_t n = g.chance(1, 40) ? PerformanceStats::MAX_PERFORMANCE_RECORDS - g.below(30) : 1 + g.below(5);
			PBT_LOG(c, n << " records added\n");
			for (size_t i = 0; i != n; ++i) {
				int v = int(i) + 1;
				loop.stats.push_record("user", -v, v * 1009);
				rec("user", -v, int(v * 1009L));
			}
			break;
		}
		case 1:
			PBT_LOG(c, "clear\n");
			check();
			loop.stats.clear_records();
			recs.clear();
			cleared = true;
			break;
		case 2: print(); break;
		default: check();
		}
		user.once(double(g.below(5)) * 0.25);
	}
	void print() {
		PBT_LOG(c, "print " << recs.size() << "\n");
		check();
		std::ostringstream out;
		loop.stats.print_records(out);
		std::istringstream in(out.str());
		std::string line;
		for (auto &r : recs) {
			if (!std::getline(in, line))
				fail("print", "fewer lines printed than records");
			std::string tail = " " + r.type + " " + std::to_string(r.count);
			if (line.compare(0, 2, "* ") || line.size() < tail.size() + 3 || line.compare(line.size() - tail.size(), std::string::npos, tail))
				fail("print", "line '" + line + "' printed for a record '" + tail + "'");
			std::string tm = line.substr(2, line.size() - tail.size() - 2);
			size_t dot     = tm.find('.');
			std::string sec = tm.substr(0, dot), frac = dot == std::string::npos ? "" : tm.substr(dot + 1);
			if (tm.find_first_not_of("0123456789.") != std::string::npos || sec.empty() || frac.size() > 9)
				fail("print-time", "time '" + tm + "' is not a number");
			frac.resize(9, '0');
			int64_t ns = std::stoll(sec) * 1000000000LL + std::stoll(frac);
			if (ns > r.tm || ns <= r.tm - 1000)
				fail("print-time", "time of a record is " + std::to_string(r.tm) + " ns, printed as " + tm);
		}
		if (!std::getline(in, line) || line.find(std::to_string(recs.size())) == std::string::npos)
			fail("print", "total of records is not printed");
		if (std::getline(in, line))
			fail("print", "more lines printed than records: '" + line + "'");
		if (!loop.stats.get_records().empty())
			fail("print", "records remain after print_records()");
		recs.clear();
		cleared = true;
	}
	void check() {
		auto &s               = loop.stats;
		const size_t have[10] = {s.RECV_count, s.RECV_size, s.SEND_count, s.SEND_size, s.UDP_RECV_count, s.UDP_RECV_size, s.UDP_SEND_count, s.UDP_SEND_size, s.EPOLL_count, s.EPOLL_size};
		const char *names[5]  = {"RECV", "SEND", "UDP_RECV", "UDP_SEND", "EPOLL"};
		for (int k = 0; k != 5; ++k) {
			if (have[2 * k] != counts[k])
				fail("counter", std::string(names[k]) + "_count is " + std::to_string(have[2 * k]) + ", but " + std::to_string(counts[k]) + " calls were made");
			if (have[2 * k + 1] != sizes[k])
				fail("counter", std::string(names[k]) + "_size is " + std::to_string(have[2 * k + 1]) + " instead of " + std::to_string(sizes[k]));
		}
		auto &r = s.get_records();
		if (r.size() != recs.size())
			fail("records", std::to_string(r.size()) + " records instead of " + std::to_string(recs.size()));
		for (size_t i = 0; i != r.size(); ++i) {
			const Rec &m = recs[i];
			if (m.type != r[i].event_type || m.count != r[i].count || (!m.any_fd && m.fd != r[i].fd))
				fail("records", "record " + std::to_string(i) + " is " + r[i].event_type + " " + std::to_string(r[i].fd) + " " + std::to_string(r[i].count) + " instead of " + m.type + " " + std::to_string(m.fd) + " " + std::to_string(m.count));
			if (std::chrono::duration_cast<std::chrono::nanoseconds>(r[i].tm.time_since_epoch()).count() != m.tm)
				fail("record-time", "record " + std::to_string(i) + " (" + m.type + ") has another time");
		}
	}
};
void Tcp::pump() {
	auto &g = h->g;
	later.cancel();
	if (!s->is_open())
		return;
	uint8_t b[600] = {}, b2[300];
	bool rd = true;
	while (rd || (to_send && s->can_write())) {
		if (!s->is_open())
			return;
		if (g.chance(1, 8)) {
			later.once(double(g.below(4)) * 0.2);
			return;
		}
		size_t n = g.len(sizeof(b));
		if (rd && g.flag()) {
			size_t n2 = g.len(sizeof(b2)), r;
			if (!n)
				n = 1;
			if (g.flag())
				r = s->read_some(b, n);
			else
				r = s->read_some(b, n, b2, n2);
			rd = r != 0;
		} else if (to_send && s->can_write()) {
			size_t r;
			n = std::min(to_send, n + 1);
			if (g.flag())
				r = s->write_some(b, std::min(n, sizeof(b)));
			else {
				std::deque<Buffer> q;
				for (size_t i = 0, k = 1 + g.below(20); i != k; ++i) {
					q.emplace_back(1 + g.below(60));
					size_t cap = q.back().capacity(), shift = g.below(cap + 1);
					q.back().did_write(shift), q.back().did_read(shift);
					q.back().write(b, g.below(q.back().write_count() + 1));
				}
				h->vec = true;
				r      = s->write_some(q);
				h->vec = false;
			}
			to_send -= std::min(to_send, r);
		}
		if (g.chance(1, 8))
			h->check();
	}
}
void Udp::pump() {
	auto &g = h->g;
	later.cancel();
	static uint8_t b[70000];
	bool rd = true;
	while (rd || to_send) {
		if (g.chance(1, 5)) {
			later.once(double(g.below(4)) * 0.2);
			h->w.last_activity_ns = h->w.now_ns;
			return;
		}
		h->udp_calls = 0;
		bool wr      = to_send && (!rd || g.flag());
		size_t n     = g.chance(1, 10) ? 0 : g.chance(1, 10) ? 65508 + g.below(100) : g.below(50);
		Address from;
		if (wr) {
			bool r = rx ? rx->write_datagram(b, n, to) : tx->write_datagram(b, n);
			if (!r)
				rd = rd || false, to_send = 0;
			else
				--to_send;
			if (!h->udp_calls)
				continue;
			h->kinds.insert(3);
			h->counts[3] += 1;
			h->sizes[3] += h->udp_last > 0 ? size_t(h->udp_last) : 0;
			h->refused |= h->udp_last < 0;
			h->rec("sendto", h->udp_fd, long(n));
			h->rec("R(sendto)", h->udp_fd, h->udp_last);
		} else {
			auto r = rx ? rx->read_datagram(b, n, &from) : tx->read_datagram(b, n, &from);
			rd     = bool(r);
			if (!h->udp_calls)
				continue;
			h->kinds.insert(2);
			h->counts[2] += 1;
			h->sizes[2] += r ? *r : 0;
			h->refused |= h->udp_last < 0;
			h->rec("recvfrom", h->udp_fd, long(n));
			h->rec("R(recvfrom)", h->udp_fd, std::min(h->udp_last, ssize_t(n)));
		}
		if (g.chance(1, 8))
			h->check();
	}
}
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	sim::World w(g, c);
	bool nt = false;
	std::string sig, err;
	{
		Hist h(g, c, w);
		try {
			h.loop.run();
			h.check();
			h.print();
			h.check();
		} catch (const sim::Abort &) {
		}
		sig = h.error_sig, err = h.error;
		nt = h.kinds.size() >= 3 && h.refused && h.cleared;
		const char *names[5] = {"TCP recv", "TCP send", "UDP recv", "UDP send", "wait"};
		for (int k : h.kinds)
			c.cls(names[k]);
		if (h.dropped)
			c.cls("records over the limit");
		if (w.icmp_errors)
			c.cls("asynchronous error");
		w.on_io = nullptr;
	}
	if (!err.empty())
		c.fail(sig, err);
	w.finish();
	if (nt)
		c.nontrivial();
}
