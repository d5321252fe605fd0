#include <crab/crab.hpp>
#include "../sim.hpp"
const char *const PROP_ID   = "C18";
const char *const PROP_RULE =
    "up to 3 connections at once, each between any two of: TCPSocket, BufferedTCPSocket, raw peer; both directions carry generated amounts written and read with generated sizes through every read/write interface, "
    "readers and writers pause, the kernel takes and delivers arbitrary parts, buffers are as small as one byte, waits are interrupted, connections are refused, reset, shut down or closed; every byte is compared "
    "with a position dependent pattern and the end state with what the schedule permits; non-trivial: a send was cut short or refused with would-block, and more than one delivery happened";
using namespace crab;
using namespace pbt;

namespace {
struct Hist;
struct Side {
	enum Kind { TCP, BUF, RAW } kind;
	int64_t finished_ns = 0;
	enum Finish { STAY, SHUT, CLOSE, SHUT_AFTER_ALL } finish;
	Hist *h;
	int id = 0;
	Side *other       = nullptr;
	bool connector    = false;
	std::unique_ptr<TCPSocket> tcp;
	std::unique_ptr<BufferedTCPSocket> buf;
	sim::EndP end;     // raw end, or the library's end once known
	Timer cont;
	size_t total = 0, sent = 0, got = 0, total_other = 0;
	bool finished = false, closed_by_me = false, started = false;
	int close_events = 0;
	bool void_out = false;  // what this side sends may legitimately be lost
	Side(Hist *h);
	void handler();
	void pump();
	void finish_now();
	void give_up();
	bool open() const { return tcp ? tcp->is_open() : buf ? buf->is_open() : false; }
	size_t read(uint8_t *p, size_t n);
	void on_bytes(const uint8_t *p, size_t n);
	uint8_t pat(size_t pos) const { return uint8_t((pos * 2654435761u + size_t(id) * 97) >> 7); }
	std::string piece(size_t n) const {
		std::string s(n, 0);
		for (size_t i = 0; i != n; ++i)
			s[i] = char(pat(sent + i));
		return s;
	}
	void raw_action();
	bool raw_can() const;
	void check_buffered();
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	std::unique_ptr<TCPAcceptor> acceptor;
	std::vector<std::unique_ptr<Side>> sides;
	std::vector<Side *> expect_accept;  // library sides to be attached to accepted connections, with the connecting end
	int faults = 0, fault_budget = 0;
	bool done = false, refused = false;
	void fail(const char *sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_) {
		w.max_step_ns = g.flag() ? 0 : 2000000000LL;
		w.partial_pct = unsigned(g.of(std::vector<int>{10, 0, 50, 90}));
		fault_budget  = g.chance(1, 5) ? 1 : 0;
		acceptor.reset(new TCPAcceptor(Address("127.0.0.1", 80), [this] { on_accept(); }));
		w.on_connect  = [this](const sockaddr_storage &a, sim::EndP peer) { return on_connect(a, peer); };
		w.actions     = [this] { return actions().size(); };
		w.do_action   = [this](size_t i) { actions()[i](); };
		w.after_event = [this] {
			for (auto &s : sides)
				s->check_buffered();
		};
		w.on_quiet = [this](int) {
			if (!w.quiet_for(100))
				return false;
			done = true;
			loop.cancel();
			return true;
		};
		size_t conns = 1 + g.pick({4, 1, 1});
		for (size_t i = 0; i != conns; ++i)
			make();
	}
	sim::EndP pending_raw;  // on_connect result for a raw acceptor
	Side *connecting = nullptr;
	int on_connect(const sockaddr_storage &, sim::EndP peer) {
		if (!connecting)
			return 0;
		Side *o = connecting->other;
		connecting->end = peer->peer;
		buffers(peer->peer), buffers(peer);
		if (o->kind == Side::RAW) {
			peer->raw = true;
			o->end    = peer;
			if (g.chance(1, 10)) {
				refused = true;
				c.cls("refused");
				o->void_out = connecting->void_out = true;
				return g.flag() ? ECONNREFUSED : -ENETUNREACH;
			}
			o->started = true;
		} else
			o->end = peer;
		return 0;
	}
	void buffers(sim::EndP e) {
		e->sndbuf = g.pick({2, 1, 1}) ? 1 + g.below(300) : 1 << 16;
		e->rcvbuf = g.pick({2, 1}) ? 1 + g.below(300) : 1 << 16;
	}
	void make() {
		std::unique_ptr<Side> a(new Side(this)), b(new Side(this));
		a->other = b.get(), b->other = a.get();
		a->id = int(sides.size()), b->id = a->id + 1;
		a->connector = true;
		a->kind      = Side::Kind(g.pick({3, 3, 2}));
		b->kind      = Side::Kind(g.pick({3, 3, a->kind == Side::RAW ? 0u : 2u}));
		static const char *n[] = {"TCPSocket", "BufferedTCPSocket", "raw"};
		for (auto s : {a.get(), b.get()}) {
			s->total  = g.len(3000);
			s->finish = Side::Finish(g.pick({1, 2, 1, 2}));
			if (s->kind == Side::RAW && s->finish != Side::SHUT)
				s->finish = Side::SHUT_AFTER_ALL;
		}
		a->total_other = b->total, b->total_other = a->total;
		PBT_LOG(c, "connection: " << n[a->kind] << "(sends " << a->total << ", then " << a->finish << ") -> " << n[b->kind] << "(sends " << b->total << ", then " << b->finish << ")\n");
		c.cls(n[a->kind]), c.cls(n[b->kind]);
		Side *pa = a.get(), *pb = b.get();
		sides.push_back(std::move(a));
		sides.push_back(std::move(b));
		for (auto s : {pa, pb}) {
			if (s->kind == Side::TCP)
				s->tcp.reset(new TCPSocket([s] { s->handler(); }));
			else if (s->kind == Side::BUF)
				s->buf.reset(new BufferedTCPSocket([s] { s->handler(); }));
		}
		if (pb->kind != Side::RAW)
			expect_accept.push_back(pb);
		if (pa->kind == Side::RAW) {
			pa->end = w.connect_raw(80);
			pb->end = pa->end->peer;
			buffers(pa->end), buffers(pb->end);
			pa->started = true;
		} else {
			connecting = pa;
			bool ok    = pa->tcp ? pa->tcp->connect(Address("127.0.0.1", 80)) : pa->buf->connect(Address("127.0.0.1", 80));
			connecting = nullptr;
			pa->started = ok;
			if (!ok && !refused)
				fail("connect", "connect() failed though the system accepted it");
			if (ok != pa->open())
				fail("is-open", "is_open() after connect()");
			if (!ok)
				pa->void_out = pb->void_out = true;
		}
	}
	void on_accept() {
		while (acceptor->can_accept()) {
			if (!acceptor->can_accept())
				fail("can-accept", "can_accept() is not stable");
			TCPSocket tmp([] {});
			// the connection's identity is known from the peer's address
			Side *s = nullptr;
			BufferedTCPSocket *b = nullptr;
			(void)b;
			Address a;
			// find by order: backlog is a queue
			std::string dummy;
			s = next_in_backlog();
			if (!s)
				fail("accept", "accepted an unknown connection");
			if (s->tcp)
				s->tcp->accept(*acceptor, &a);
			else
				s->buf->accept(*acceptor, &a);
			if (a.get_port() != sim::port_of(s->other->end->local))
				fail("accept-address", "address given by accept() is not the peer's");
			s->started = true;
		}
	}
	Side *next_in_backlog() {
		for (auto it = expect_accept.begin(); it != expect_accept.end(); ++it)
			if ((*it)->end && (*it)->end->fd >= 0 && !(*it)->started) {
				Side *s = *it;
				return s;
			}
		return nullptr;
	}
	std::vector<std::function<void()>> actions() {
		std::vector<std::function<void()>> r;
		if (done)
			return r;
		for (auto &s : sides)
			if (s->kind == Side::RAW && s->raw_can()) {
				auto p = s.get();
				r.push_back([p] { p->raw_action(); });
			}
		if (fault_budget > 0 && r.size() < 3)
			for (auto &s : sides)
				if (s->kind == Side::RAW && s->started && s->end && s->end->state == sim::End::OPEN && !s->end->orphan) {
					auto p = s.get();
					r.push_back([this, p] {
						if (!g.chance(1, 4))
							return;
						PBT_LOG(c, "raw" << p->id << " resets\n");
						c.cls("reset");
						p->end->rst();
						p->finished = p->closed_by_me = true;
						p->void_out = p->other->void_out = true;
						--fault_budget;
						++faults;
					});
					break;
				}
		return r;
	}
	void verdict() {
		for (auto &s : sides) {
			Side &x = *s, &o = *s->other;
			if (!x.started && !x.void_out)
				fail("stall", "connection was never established");
			if (x.void_out)
				continue;
			if (x.sent < x.total)
				fail("stall", "side " + std::to_string(x.id) + " could send only " + std::to_string(x.sent) + " of " + std::to_string(x.total) + " bytes though the other side was willing");
			if (o.got < x.total)
				fail("lost", "side " + std::to_string(o.id) + " got " + std::to_string(o.got) + " of " + std::to_string(x.total) + " bytes");
			if (x.finished && o.kind != Side::RAW && !o.closed_by_me && (o.open() || o.close_events != 1))
				fail("no-eof", "the end of the stream was " + std::string(o.open() ? "not noticed" : "not reported once"));
			if (x.finished && o.kind == Side::RAW && !o.end->gone())
				fail("no-fin", "the peer never received the end of the stream");
		}
	}
};
Side::Side(Hist *h) : h(h), cont([this] { pump(); }) {}
void Side::check_buffered() {
	if (kind == BUF && buf->is_open() && end && !void_out && !end->dead && buf->get_total_buffer_size() + end->sent_total != sent)
		h->fail("buffer-size", "get_total_buffer_size() is not the number of bytes not yet given to the system");
}
void Side::handler() {
	check_buffered();
	if (!open()) {
		if (!started && !void_out)
			h->fail("early-close", "socket reported closed before it was connected");
		++close_events;
		PBT_LOG(h->c, "side" << id << " closed\n");
		if (close_events > 1)
			h->fail("close-twice", "the loss of one connection was reported twice");
		if (closed_by_me)
			h->fail("after-close", "handler called after close()");
		if (!other->finished && !h->refused && !h->faults && !finished)
			h->fail("false-close", "connection reported lost though nobody closed it");
		// whatever was not given to the system is lost now
		if (sent < total || other->finished)
			void_out = true;
		// after write_shutdown() the socket waits for the other side a limited time only
		if (kind == BUF && finished && h->w.now_ns - finished_ns >= 10000000000LL)
			void_out = true;
		return;
	}
	pump();
}
size_t Side::read(uint8_t *p, size_t n) {
	Gen &g = h->g;
	if (kind == BUF)
		return buf->read_some(p, n);
	switch (g.pick({3, 2, 1})) {
	case 0: return tcp->read_some(p, n);
	case 1: {
		size_t a = g.urange(0, n);
		return tcp->read_some(p, a, p + a, n - a);
	}
	default: {
		Buffer b(n);
		size_t shift = g.below(n);
		b.did_write(shift), b.did_read(shift);
		size_t r = b.read_from(*tcp);
		if (r != b.size())
			h->fail("read-from", "Buffer::read_from() result differs from the bytes stored");
		b.read(p, r);
		return r;
	}
	}
}
void Side::on_bytes(const uint8_t *p, size_t n) {
	for (size_t i = 0; i != n; ++i)
		if (got + i >= other->sent || p[i] != other->pat(got + i))
			h->fail("corrupt", "byte " + std::to_string(got + i) + " received by side " + std::to_string(id) + (got + i >= other->sent ? " was never sent" : " is wrong"));
	got += n;
}
// The system takes no more at the moment: sometimes the owner decides not to send the rest and to end the stream here
void Side::give_up() {
	if (!open() || !started || finished || sent == 0 || sent == total || !h->g.chance(1, 6))
		return;
	PBT_LOG(h->c, "side" << id << " gives up after " << sent << " of " << total << " bytes\n");
	h->c.cls("ends the stream while blocked");
	total = other->total_other = sent;
	finish_now();
}
void Side::finish_now() {
	if (finished || sent < total)
		return;
	if (finish == STAY || (finish == SHUT_AFTER_ALL && got < total_other))
		return;
	if (!open())
		return;
	finished    = true;
	finished_ns = h->w.now_ns;
	if (finish == CLOSE) {
		closed_by_me = true;
		bool unread  = end && (!end->rq.empty() || !other->finished);
		if (unread || (buf && buf->get_total_buffer_size()))
			void_out = true;
		if (got < total_other)
			other->void_out = true;
		PBT_LOG(h->c, "side" << id << " close()\n");
		h->c.cls("close");
		if (tcp)
			tcp->close();
		else
			buf->close();
		cont.cancel();
		if (open())
			h->fail("is-open", "is_open() after close()");
	} else {
		PBT_LOG(h->c, "side" << id << " write_shutdown()\n");
		h->c.cls("shutdown");
		if (got < total_other || kind == BUF)
			other->void_out = other->void_out || got < total_other;
		if (tcp)
			tcp->write_shutdown();
		else
			buf->write_shutdown();
	}
}
void Side::pump() {
	Gen &g = h->g;
	cont.cancel();
	if (!open())
		return;
	uint8_t data[512];
	bool rblock = false, wblock = false;
	for (int guard = 0; guard != 100000 && open() && !(rblock && wblock); ++guard) {
		if (sent == total) {
			finish_now();
			wblock = true;
			if (!open())
				return;
		}
		if (g.chance(1, 25)) {  // pause
			cont.once(std::chrono::milliseconds(1 + int64_t(g.below(3000))));
			return;
		}
		if (!rblock && (wblock || g.flag())) {
			size_t want = 1 + g.len(sizeof(data) - 1);
			size_t n    = read(data, want);
			if (n > want)
				h->fail("read-size", "read_some() returned more than asked");
			if (!n)
				rblock = true;
			if (n && kind == BUF && finished)
				h->fail("read-after-shutdown", "BufferedTCPSocket returned data after write_shutdown()");
			on_bytes(data, n);
		} else if (!wblock && sent < total) {
			size_t want = std::min(total - sent, 1 + g.len(600));
			auto d      = piece(want);
			if (kind == TCP) {
				size_t n;
				if (g.chance(2, 3))
					n = tcp->write_some(d.data(), want);
				else {
					std::deque<Buffer> q;
					size_t pos = 0;
					while (pos < want) {
						size_t k = 1 + g.below(want - pos);
						q.emplace_back(k + g.below(3));
						if (q.size() > 40)
							k = want - pos, q.back() = Buffer(k);
						// stored bytes wrap around the end of the buffer in many cases
						size_t cap = q.back().capacity(), shift = g.below(cap), first = std::min(k, cap - shift);
						q.back().did_write(shift);
						q.back().write(d.data() + pos, first);
						q.back().did_read(shift);
						q.back().write(d.data() + pos + first, k - first);
						pos += k;
						if (g.chance(1, 6))
							q.emplace_back(3);  // empty one
					}
					n = tcp->write_some(q);
				}
				if (n > want)
					h->fail("write-size", "write_some() returned more than offered");
				if (n && !tcp->can_write() && open())
					h->fail("can-write", "can_write() is false right after a successful write");
				sent += n;
				if (!n)
					wblock = true, give_up();
				if (end && open() && end->sent_total != sent)
					h->fail("write-count", "write_some() result differs from the bytes given to the system");
			} else {
				switch (g.pick({2, 2, 2, 1, 1})) {
				case 0: sent += want; buf->write(d.data(), want); break;
				case 1: sent += want; buf->write(std::move(d)); break;
				case 2:
					sent += want;
					if (g.flag())
						buf->buffer(d.data(), want);
					else
						buf->write(std::move(d), BUFFER_ONLY);
					if (sent == total && open())
						buf->write(std::string{});
					break;
				case 3: {
					size_t n = buf->write_some(d.data(), want);
					sent += n;
					if (!n && !buf->get_total_buffer_size())
						wblock = true, give_up();
					break;
				}
				default: wblock = true;
					if (open())
						cont.once(std::chrono::milliseconds(1));
				}
				check_buffered();
				if (!open())
					void_out = true;
			}
		}
	}
}
bool Side::raw_can() const { return started && end && end->state == sim::End::OPEN && !closed_by_me && (end->rq.size() || end->paused || (!end->wshut && !end->dead && sent < total) || (!finished && (end->dead || end->rfin || (sent == total && (finish == SHUT || got >= total_other))))); }
void Side::raw_action() {
	Gen &g = h->g;
	if (end->rq.size()) {
		auto d = end->rq.pop(1 + g.below(end->rq.size()));
		on_bytes(reinterpret_cast<const uint8_t *>(d.data()), d.size());
	}
	if (end->paused || g.chance(1, 20)) {
		end->paused = !end->paused;
		return;
	}
	if (end->dead) {
		finished = closed_by_me = true;
		void_out = true;
		return;
	}
	if (sent < total && !end->rfin) {
		auto d = piece(std::min(total - sent, 1 + g.len(600)));
		end->send(d);
		sent += d.size();
	} else if (!finished) {
		if (sent < total)  // the other side has shut down: give up
			void_out = true;
		if (finish == SHUT || got >= total_other || end->rfin) {
			finished = true;
			if (got < total_other)
				other->void_out = true;
			PBT_LOG(h->c, "raw" << id << " shuts down\n");
			end->fin();
		} else if (!end->rq.size())
			return;
	}
}
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	sim::World w(g, c);
	{
		std::unique_ptr<Hist> h(new Hist(g, c, w));
		try {
			h->loop.run();
			h->verdict();
		} catch (const sim::Abort &) {
		}
		if (!h->error.empty())
			c.fail(h->error_sig, h->error);
	}
	w.finish();
	if (w.eagain_sends)
		c.cls("would-block");
	if (w.partial_sends)
		c.cls("short write");
	if ((w.eagain_sends || w.partial_sends) && w.activities > 1)
		c.nontrivial();
}
