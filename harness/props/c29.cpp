#include <iostream>
#include <list>
#include <crab/crab.hpp>
#include "../ref/http_net.hpp"
#include "../sim.hpp"
const char *const PROP_ID   = "C29";
const char *const PROP_RULE =
    "1-3 raw peers of a library server, or of one connection object, ask for 1-6 streamed bodies each (HTTP with length, HTTP chunked, WebSocket text or binary messages; pipelined or not), written by a handler that writes only while the socket accepts "
    "data or from a slow source driven by a timer, begun at once or later, in pieces of 0-60000 bytes through both overloads, sometimes buffered; small socket buffers, partial writes, peers that pause, ping in the middle or leave; bytes that reach "
    "the peer are decoded independently; non-trivial: a stream needed at least 2 calls of its handler to finish, or was interrupted by loss of the connection";
using namespace crab;
using namespace pbt;
namespace {
struct Conn;
struct Stream {
	Conn *k   = nullptr;
	size_t ix = 0;
	std::string body;
	bool chunked = false, text = false, later = false, slow = false, close = false, controls = false;
	size_t piece_max = 1, buffer_pct = 0;
	double period = 0, delay = 0;
	// state
	http::Client *who = nullptr;
	std::unique_ptr<Timer> timer, feed;
	bool waiting = false, asked = false, started = false, finished = false, told = false, inside = false;
	size_t pos = 0, avail = 0, calls = 0, unflushed = 0;
	std::vector<size_t> recent;
};
struct Conn {
	int id = 0;
	bool ws = false, started = false, lockstep = false, left = false, done = false, small = false;
	sim::EndP raw;
	std::string out;
	std::vector<size_t> ends;  // offset in out after which stream i is asked
	std::list<Stream> streams;
	size_t sent = 0, base = 0, checked = 0, frames_seen = 0, pings = 0, pongs = 0;
	uint64_t overhead = 0, payload = 0;  // what the application handed over
	int end           = 0;
	size_t end_after  = SIZE_MAX;        // leaves when so many bytes were received
	uint64_t received = 0;
	hn::MsgParser parser;
	hn::FrameParser fp;
	std::string assembled;
	bool in_message = false;
	int message_op  = 0;
	std::unique_ptr<http::ServerConnection> bare;
	Stream *current = nullptr;
	std::vector<Stream *> order;  // as started
	Stream *next() {
		for (auto &s : streams)
			if (!s.asked)
				return &s;
		return nullptr;
	}
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	std::list<Conn> conns;
	std::unique_ptr<http::Server> server;
	std::unique_ptr<TCPAcceptor> acceptor;
	bool bare = false, finale = false, nontrivial = false;
	int pauses          = 4;
	int64_t progress_ns = 0;
	void fail(const std::string &sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	void progress() { progress_ns = w.now_ns; }
	std::string name(const Conn &k) { return "connection " + std::to_string(k.id); }
	std::string name(const Stream &s) { return name(*s.k) + " stream " + std::to_string(s.ix); }
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_) {
		progress_ns = w.now_ns;
		bare        = g.chance(1, 4);
		size_t n    = bare ? 1 : 1 + g.below(3);
		for (size_t i = 0; i != n; ++i)
			make_conn(int(i));
		if (bare) {
			Conn *k = &conns.back();
			k->bare.reset(new http::ServerConnection([this, k] { on_bare(*k); }));
			acceptor.reset(new TCPAcceptor(Address("0.0.0.0", 80), [this, k] {
				if (acceptor->can_accept())
					k->bare->accept(*acceptor);
			}));
		} else {
			server.reset(new http::Server(Address("0.0.0.0", 80)));
			server->r_handler = [this](http::Client *who, http::Request &&rq) { on_request(who, std::move(rq)); };
		}
		w.actions     = [this]() { return finale ? 0 : todo(false, 0); };
		w.do_action   = [this](size_t i) { todo(true, i); };
		w.after_event = [this] {
			for (auto &k : conns)
				drain(k);
		};
		if (g.chance(1, 6))
			w.send_fault = [this] { return g.chance(1, 60) ? int(g.of(std::vector<int>{ECONNRESET, EPIPE, ETIMEDOUT, EHOSTUNREACH})) : 0; };
		w.on_quiet = [this](int timeout) {
			if (timeout)
				delivered();
			for (auto &k : conns)
				if (k.raw && k.raw->paused) {
					k.raw->paused = false;
					return true;
				}
			if (w.now_ns - progress_ns < 100 * 1000000000LL)
				return false;
			progress();
			if (!finale) {
				finale = true;
				completed();
				for (auto &k : conns)
					if (k.raw && !k.left)
						leave(k, 1 + int(g.below(3)));
				return true;
			}
			loop.cancel();
			return true;
		};
	}
	std::string fill(const std::string &tag, size_t n) {
		std::string r;
		r.reserve(n + 12);
		for (size_t i = 0; r.size() < n; ++i)
			r += tag + std::to_string(i * 7 + 1) + ",";
		r.resize(n);
		return r;
	}
	void make_conn(int id) {
		conns.emplace_back();
		Conn &k    = conns.back();
		k.id       = id;
		k.ws       = g.chance(2, 5);
		k.lockstep = g.chance(1, 3);
		k.small    = g.chance(3, 4);
		if (g.chance(1, 3)) {
			k.end       = 1 + int(g.below(4));
			k.end_after = g.below(60000);
		}
		if (k.ws)
			k.out = "GET /up HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + hn::base64(g.blob(16)) + "\r\nSec-WebSocket-Version: 13\r\n\r\n";
		size_t n = 1 + g.below(6);
		bool closed = false;
		for (size_t i = 0; i != n && !closed; ++i) {
			k.streams.emplace_back();
			Stream &s   = k.streams.back();
			s.k         = &k;
			s.ix        = i;
			s.body      = fill(std::string(1, char('a' + id)) + std::to_string(i) + ":", g.chance(1, 10) ? 0 : g.chance(1, 40) ? 65400 + g.below(400) : hn::body_size(g, 60000));
			s.chunked   = g.flag();
			s.text      = g.flag();
			s.later     = g.chance(1, 3);
			s.slow      = g.chance(1, 3);
			s.controls  = k.ws && g.chance(1, 4);
			s.piece_max = g.chance(1, 4) ? s.body.size() + 1 : s.body.size() / 40 + 1 + g.below(5000);
			if (g.chance(1, 4))
				s.buffer_pct = 30;
			s.delay  = 0.01 * double(g.below(20));
			s.period = g.of(std::vector<double>{0.001, 0.05, 1, 30});
			if (k.ws) {
				hn::Frame f;
				f.op     = 1;
				f.masked = true;
				f.key    = uint32_t(g.below(0xFFFFFFFFu));
				f.data   = "go" + std::to_string(i);
				if (g.chance(1, 4)) {
					hn::Frame p;
					p.op     = 9;
					p.masked = true;
					p.data   = "p" + std::to_string(k.pings++);
					k.out += p.encode();
				}
				k.out += f.encode();
			} else {
				bool post = g.chance(1, 4);
				s.close   = g.chance(1, 8);
				closed    = s.close;
				k.out += std::string(post ? "POST" : "GET") + " /s" + std::to_string(i) + " HTTP/1.1\r\nHost: h\r\n" + (s.close ? "Connection: close\r\n" : "") + (post ? "Content-Length: 3\r\n\r\nabc" : "\r\n");
			}
			k.ends.push_back(k.out.size());
			PBT_LOG(c, name(s) << (k.ws ? s.text ? " text " : " binary " : s.chunked ? " chunked " : " length ") << s.body.size() << " pieces to " << s.piece_max << (s.slow ? " slow " : "") << (s.slow ? std::to_string(s.period) : "") << (s.later ? " later" : "")
			                     << (s.close ? " close" : "") << (s.buffer_pct ? " buffers" : "") << (s.controls ? " controls" : "") << "\n");
		}
		PBT_LOG(c, name(k) << (k.end ? " leaves " : "") << k.end << " after " << k.end_after << (k.lockstep ? " one by one" : "") << "\n");
	}
	// ---- application
	Conn &conn_of(const Address &a) {
		for (auto &k : conns)
			if (k.raw && sim::port_of(k.raw->local) == a.get_port())
				return k;
		fail("harness", "unknown peer");
		throw 0;
	}
	void on_request(http::Client *who, http::Request &&rq) {
		Conn &k = conn_of(who->get_peer_address());
		progress();
		if (k.ws)
			return who->web_socket_upgrade([this, &k, who](http::WebMessage &&m) {
				progress();
				if (!m.is_close())
					return begin(k, who, m.body);
				for (auto &s : k.streams)
					if (s.asked && !s.started)
						s.told = true;
			});
		begin(k, who, rq.header.path);
	}
	void on_bare(Conn &k) {
		progress();
		if (!k.bare->is_open()) {
			if (k.current && !k.current->finished)
				produce(*k.current);
			k.current = nullptr;
			return;
		}
		if (k.bare->is_writing_body()) {
			if (!k.current)
				fail("harness", "writing without stream");
			produce(*k.current);
			if (k.bare->is_writing_body())
				return;
		}
		http::Request rq;
		http::WebMessage m;
		while (true) {
			if (k.bare->read_next(rq)) {
				if (k.ws)
					k.bare->web_socket_upgrade();
				else
					begin(k, nullptr, rq.header.path);
			} else if (k.bare->read_next(m))
				begin(k, nullptr, m.body);
			else
				break;
		}
	}
	bool is_open(Stream &s) { return s.who ? s.who->is_open() : s.k->bare->is_open(); }
	bool can_write(Stream &s) { return s.who ? s.who->can_write() : s.k->bare->can_write(); }
	void begin(Conn &k, http::Client *who, const std::string &what) {
		Stream *s = k.next();
		if (!s || what != (k.ws ? "go" : "/s") + std::to_string(s->ix))
			fail("order", name(k) + " application received " + what + " out of order");
		if (!k.ws && s->ix && !std::next(k.streams.begin(), ptrdiff_t(s->ix - 1))->finished)
			fail("order", name(*s) + " was asked for before the previous one was finished");
		if (k.ws && k.current && k.current->started && !k.current->finished)
			fail("order", name(k) + " message was delivered while another one is being streamed");
		s->asked = true;
		s->who   = who;
		if (!s->later)
			return start(*s);
		s->timer.reset(new Timer([this, s] {
			if (s->told)
				return;
			if (!is_open(*s)) {
				s->told = true;
				return;
			}
			start(*s);
		}));
		s->timer->once(s->delay);
		if (who && !k.ws)
			return who->postpone_response([this, s] {
				if (s->started || s->told)
					fail("told", name(*s) + ": disconnect handler of the postponed response called after the stream began");
				s->told = true;
				s->timer->cancel();
			});
	}
	void start(Stream &s) {
		progress();
		if (s.k->current && s.k->ws && !s.k->current->finished) {
			s.waiting = true;
			return;
		}
		PBT_LOG(c, name(s) << " starts\n");
		s.started    = true;
		s.k->current = &s;
		s.k->order.push_back(&s);
		if (s.slow) {
			s.feed.reset(new Timer([this, &s] {
				if (s.told || s.finished)
					return;
				s.avail = std::min(s.body.size(), s.avail + s.body.size() / 100 + 1 + g.below(s.piece_max * 2));
				if (s.avail < s.body.size())
					s.feed->once(s.period);
				if (!s.inside)
					produce(s, true);
			}));
			s.feed->once(s.period);
		} else
			s.avail = s.body.size();
		if (s.k->ws) {
			auto op = s.text ? http::WebMessageOpcode::TEXT : http::WebMessageOpcode::BINARY;
			s.k->overhead += 20;
			if (s.who)
				s.who->start_write_stream(op, [this, &s] { produce(s); });
			else {
				s.k->bare->write(op);
				produce(s);
			}
			return;
		}
		s.k->overhead += 500;
		http::ResponseHeader h;
		h.status = 200;
		if (s.chunked)
			h.transfer_encoding_chunked = true;
		else
			h.content_length = s.body.size();
		if (s.who)
			s.who->start_write_stream(h, [this, &s] { produce(s); });
		else {
			s.k->bare->write(h, g.flag() ? WRITE : BUFFER_ONLY);
			produce(s);
			if (s.k->bare->is_open() && s.k->bare->get_state() == http::ServerConnection::RESPONSE_BODY && !s.chunked && s.body.empty())
				s.k->bare->write(std::string{}), s.finished = true;
		}
	}
	void produce(Stream &s, bool by_timer = false) {
		if (s.told)
			fail("told", name(s) + ": told twice that the connection is lost");
		if (s.finished) {
			if (!is_open(s))
				fail("told", name(s) + ": told of a loss after the stream was finished");
			return;
		}
		if (!is_open(s)) {
			if (by_timer)
				return;  // handler is about to be called
			s.told = true;
			PBT_LOG(c, name(s) << " told\n");
			if (s.pos)
				nontrivial = true;
			progress();
			return;
		}
		if (s.inside)
			fail("reentered", name(s) + ": handler called while it is running");
		s.inside = true;
		++s.calls;
		while (can_write(s) && !s.finished) {
			if (s.who && s.who->get_body_position() != s.pos)
				fail("position", name(s) + ": position is " + std::to_string(s.who->get_body_position()) + " after " + std::to_string(s.pos) + " bytes");
			size_t n    = std::min(s.avail - s.pos, g.chance(1, 6) ? s.piece_max : s.body.size() / 500 + 1 + g.below(s.piece_max));
			bool last   = s.pos + n == s.body.size();
			bool buffer = !last && n && s.pos + n < s.avail && s.unflushed < 3 && g.below(100) < s.buffer_pct;
			if (n == 0 && !last) {
				break;  // waiting for the source
			}
			bounded(s);
			if (n == 0 && (s.k->ws || s.chunked)) {
				if (g.chance(1, 4))
					write(s, 0, WRITE);
				finish(s);
				break;
			}
			if (n == 0 && s.body.empty() && s.who)
				break;  // known length 0 is finished by start_write_stream or by us later
			if (s.controls && g.chance(1, 10)) {
				http::WebMessage m(http::WebMessageOpcode::PING, "mid");
				s.k->overhead += 20;
				if (s.who)
					s.who->write(std::move(m));
				else
					s.k->bare->write(std::move(m));
				continue;
			}
			if (n && g.chance(1, 20) && !last && (s.k->ws || s.chunked || s.pos))
				write(s, 0, WRITE);
			bool closing = last && !s.k->ws && !s.chunked;
			if (closing)
				s.finished = true;
			write(s, n, buffer ? BUFFER_ONLY : WRITE);
			s.unflushed = buffer ? s.unflushed + 1 : 0;
			if (closing)
				break;
			if (last && !is_open(s))
				break;
			if (last && g.flag()) {
				finish(s);
				break;
			}
		}
		if (!s.finished && s.body.empty() && !s.chunked && !s.k->ws && s.who)
			s.finished = true;  // start_write_stream finishes it
		s.inside = false;
		if (s.finished && s.calls > 1)
			nontrivial = true;
	}
	void finish(Stream &s) {
		s.finished = true;
		s.k->overhead += 10;
		if (s.who)
			s.who->write_last_chunk();
		else
			s.k->bare->write_last_chunk();
		for (auto &n : s.k->streams)
			if (n.waiting && !n.started && !n.told && is_open(n)) {
				n.waiting = false;
				if (g.flag())
					return start(n);
				n.timer.reset(new Timer([this, &n] {
					if (!n.told && is_open(n))
						start(n);
				}));
				n.timer->once(n.delay);
				return;
			}
	}
	void write(Stream &s, size_t n, BufferOptions bo) {
		progress();
		const char *p = s.body.data() + s.pos;
		s.pos += n;
		s.k->payload += n;
		s.k->overhead += 22;
		s.recent.push_back(n);
		bool str = g.flag();
		if (s.who && str)
			s.who->write(std::string(p, n), bo);
		else if (s.who)
			s.who->write(p, n, bo);
		else if (str)
			s.k->bare->write(std::string(p, n), bo);
		else
			s.k->bare->write(p, n, bo);
		if (s.who && is_open(s) && s.who->get_body_position() != s.pos)
			fail("position", name(s) + ": position is " + std::to_string(s.who->get_body_position()) + " after " + std::to_string(s.pos) + " bytes");
	}
	void bounded(Stream &s) {
		Conn &k        = *s.k;
		uint64_t given = k.payload + k.overhead, gone = k.raw ? k.raw->peer->sent_total : 0;
		uint64_t limit = 2000;
		for (size_t i = s.recent.size(); i-- && s.recent.size() - i <= 6;)
			limit += s.recent[i] + 40;
		limit += k.overhead;  // unknown exactly
		if (k.raw && !k.raw->peer->dead && given > gone + limit)
			fail("unbounded", name(s) + ": " + std::to_string(given - gone) + " bytes are waiting, but the socket is said to accept data");
	}
	// ---- peers
	void leave(Conn &k, int how) {
		PBT_LOG(c, name(k) << " leaves " << how << "\n");
		k.left        = true;
		k.raw->paused = false;
		k.out.clear();
		switch (how) {
		case 1: k.raw->fin(); break;
		case 2: k.raw->rst(); break;
		case 3: k.raw->app_close(); break;
		default:
			k.raw->rst_errno = ETIMEDOUT;
			k.raw->rst();
		}
	}
	size_t todo(bool act, size_t i) {
		size_t n    = 0;
		auto option = [&](bool possible) { return possible && n++ == i && act; };
		for (auto &k : conns) {
			if (option(!k.started)) {
				progress();
				k.started = true;
				k.raw     = w.connect_raw(80);
				if (k.small) {
					k.raw->peer->sndbuf = 300 + g.below(5000);
					if (g.flag())
						k.raw->rcvbuf = 300 + g.below(3000);
				}
				return 0;
			}
			if (!k.raw || k.raw->gone() || k.left)
				continue;
			size_t may = k.sent + k.out.size();
			if (k.lockstep) {
				size_t done = k.checked;
				may         = done < k.ends.size() ? k.ends[done] : may;
			}
			if (option(k.sent < may && !k.out.empty())) {
				progress();
				size_t m = may - k.sent;
				if (g.chance(1, 3))
					m = 1 + g.below(m);
				k.raw->send(k.out.substr(0, m));
				k.out.erase(0, m);
				k.sent += m;
				return 0;
			}
			if (option(pauses && !k.raw->paused)) {
				k.raw->paused = true;
				--pauses;
				return 0;
			}
			if (option(k.raw->paused)) {
				k.raw->paused = false;
				return 0;
			}
		}
		return n;
	}
	void drain(Conn &k) {
		if (!k.raw || k.done)
			return;
		if (!k.raw->rq.empty()) {
			std::string s = k.raw->take();
			k.received += s.size();
			input(k, s);
			if (k.end && !k.left && k.received >= k.end_after)
				leave(k, k.end);
		}
		if (k.raw->gone()) {
			k.done = true;
			if (!k.left && !lost_ok(k))
				fail("closed", name(k) + " was closed by the server");
			k.raw->app_close();
			k.left = true;
		}
	}
	bool lost_ok(Conn &k) {
		if (w.send_fault)
			return true;
		return k.streams.back().close && k.checked == k.streams.size();
	}
	void input(Conn &k, const std::string &bytes) {
		if (!k.parser.stop_after)
			k.parser.feed(bytes);
		else
			k.fp.feed(bytes);
		if (k.parser.stop_after && !k.parser.buf.empty()) {
			k.fp.feed(k.parser.buf);
			k.parser.buf.clear();
		}
		if (!k.parser.error.empty())
			fail("framing", name(k) + ": " + k.parser.error);
		if (!k.fp.error.empty())
			fail("framing", name(k) + ": " + k.fp.error);
		if (k.ws) {
			for (; k.frames_seen != k.fp.out.size(); ++k.frames_seen)
				on_frame(k, k.fp.out[k.frames_seen]);
			return;
		}
		for (; k.checked != k.parser.out.size(); ++k.checked) {
			progress();
			auto &m = k.parser.out[k.checked];
			if (k.checked >= k.order.size())
				fail("extra", name(k) + ": a response nobody asked for");
			Stream &s = *k.order[k.checked];
			if (m.chunked != s.chunked || m.has_length == s.chunked)
				fail("framing", name(s) + ": length declared in the wrong way");
			same(s, m.body, true);
			if (m.close != s.close)
				fail("framing", name(s) + ": wrong Connection header");
		}
		if (!k.parser.partial_body().empty()) {
			if (k.checked >= k.order.size())
				fail("extra", name(k) + ": a response nobody asked for");
			same(*k.order[k.checked], k.parser.partial_body(), false);
		}
	}
	void same(Stream &s, const std::string &got, bool all) {
		if (s.body.compare(0, got.size(), got) || got.size() > s.pos)
			fail("body", name(s) + ": the peer got other bytes than were written");
		if (all && (got.size() != s.body.size() || !s.finished))
			fail("body", name(s) + ": ended after " + std::to_string(got.size()) + " of " + std::to_string(s.body.size()) + " bytes");
	}
	void on_frame(Conn &k, const hn::Frame &f) {
		if (f.rsv || f.masked)
			fail("framing", name(k) + ": masked or reserved bits");
		if (f.op >= 8) {
			if (!f.fin || f.data.size() > 125)
				fail("framing", name(k) + ": bad control frame");
			if (f.op == 10 && f.data != "p" + std::to_string(k.pongs++))
				fail("pong", name(k) + ": wrong PONG " + f.data);
			if (f.op == 8 && !k.left)
				fail("closed", name(k) + ": CLOSE nobody asked for");
			return;
		}
		progress();
		if (f.op) {
			if (k.in_message)
				fail("framing", name(k) + ": new message within a message");
			k.in_message = true;
			k.message_op = f.op;
		} else if (!k.in_message)
			fail("framing", name(k) + ": continuation without a message");
		if (k.checked >= k.order.size())
			fail("extra", name(k) + ": a message nobody asked for");
		Stream &s = *k.order[k.checked];
		k.assembled += f.data;
		same(s, k.assembled, f.fin);
		if (f.fin) {
			if (k.message_op != (s.text ? 1 : 2))
				fail("framing", name(s) + ": wrong kind of message");
			k.assembled.clear();
			k.in_message = false;
			++k.checked;
		}
	}
	void delivered() {  // nothing but time can happen now
		for (auto &k : conns) {
			if (!k.raw || k.left || k.raw->paused || k.raw->peer->dead || w.send_fault)
				continue;
			size_t done = 0;
			for (auto s : k.order)
				done += s->finished;
			if (k.checked < done)
				fail("late", name(k) + ": " + std::to_string(done) + " bodies are written, only " + std::to_string(k.checked) + " arrived");
			if (k.checked < k.order.size() && !k.order[k.checked]->unflushed) {
				size_t got = k.ws ? k.assembled.size() : k.parser.partial_body().size();
				if (got != k.order[k.checked]->pos)
					fail("late", name(k) + ": " + std::to_string(k.order[k.checked]->pos) + " bytes are written, only " + std::to_string(got) + " arrived");
			}
		}
	}
	void completed() {
		for (auto &k : conns) {
			if (k.left)
				continue;
			if (k.checked != k.streams.size() || k.pongs != k.pings)
				fail("stalled", name(k) + ": " + std::to_string(k.checked) + " of " + std::to_string(k.streams.size()) + " bodies arrived, " + std::to_string(k.pongs) + " of " + std::to_string(k.pings) + " pings answered");
		}
	}
	void verdict() {
		for (auto &k : conns)
			for (auto &s : k.streams)
				if (s.started && !s.finished && !s.told)
					fail("told", name(s) + " was never told that the connection is lost");
	}
};
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	std::cout.rdbuf(nullptr);
	sim::World w(g, c);
	w.max_waits = 60000;
	bool nt     = false;
	std::string sig, err;
	{
		Hist h(g, c, w);
		try {
			h.loop.run();
			h.verdict();
		} catch (const sim::Abort &) {
		}
		sig = h.error_sig, err = h.error;
		c.cls(h.bare ? "connection object" : "server");
		for (auto &k : h.conns)
			for (auto &s : k.streams) {
				if (s.started)
					c.cls(k.ws ? "WebSocket message" : s.chunked ? "chunked" : "known length");
				if (s.told)
					c.cls("lost in the middle");
				if (s.slow && s.finished)
					c.cls("slow source");
				if (s.finished && s.calls > 5)
					c.cls("more than 5 calls of the handler");
			}
		if (w.eagain_sends)
			c.cls("socket buffer full");
		nt = h.nontrivial;
	}
	if (!err.empty())
		c.fail(sig, err);
	w.finish();
	if (nt)
		c.nontrivial();
}
