#include <iostream>
#include <list>
#include <crab/crab.hpp>
#include "../ref/http_net.hpp"
#include "../sim.hpp"
const char *const PROP_ID   = "C26";
const char *const PROP_RULE =
    "1-2 links (library client or raw client, library HTTP server, library connection object or raw server), each with 1-3 successive WebSocket sessions on reused objects: both sides send 0-6 text, binary, ping and pong messages of any size, in "
    "bursts, later or in answer; raw peers fragment them arbitrarily with control frames between fragments; sessions end by a close of either side, break off within a frame, or stay open; upgrades come at once or late, after ordinary "
    "exchanges; non-trivial: at least 3 messages delivered and one of: fragmented message, second session, close delivered, socket buffer full";
using namespace crab;
using namespace pbt;
namespace {
enum { LIB, SRV, BARE, RAW };
enum { BREAK = 100 };
enum End { STAYS, C_CLOSE, S_CLOSE, C_BREAK, S_BREAK };
struct Item {
	int op = 1;
	std::string body;
	uint16_t code = 0;
	double delay  = 0;
	bool on_recv  = false, buffer = false;
};
struct Msg {
	int op;
	std::string body;
	uint16_t code;
};
struct Dir {
	std::vector<Msg> sent;
	size_t got = 0;
	std::vector<std::string> pings;  // pings this side's raw peer sent
	size_t pongs = 0;
	bool closed  = false;  // CLOSE delivered
};
struct Link;
struct Sess {
	Link *l = nullptr;
	int id  = 0;
	End end = STAYS;
	std::vector<Item> script[2];
	size_t pos[2] = {0, 0};
	std::unique_ptr<Timer> timer[2];
	Dir d[2];  // 0 from the client, 1 from the server
	bool open[2]   = {false, false};
	bool over[2]   = {false, false};  // this side knows that the session is over
	bool broken    = false;
	bool next      = false;  // the next session was allowed to begin
	bool told      = false;  // disconnect told to the handler
	bool fragments = false;
	int gets = 0, gets_done = 0;
	double upgrade_delay = 0;
	bool answer          = false;  // the application answers CLOSE with CLOSE
	http::Client *who    = nullptr;
	std::unique_ptr<Timer> upgrade;
	bool upgraded = false, server_lost = false;
};
struct RawSide {
	sim::EndP raw;
	std::string out, in;
	bool head_done = false, fin_after = false, fin_done = false;
	size_t break_at = SIZE_MAX;
	hn::MsgParser head;
	hn::FrameParser fp;
	size_t seen = 0;
	std::string part;  // fragments
	int part_op = 0;
	std::string key;
};
struct Link {
	int id = 0, ck = LIB, sk = SRV;
	bool big[2] = {true, true};
	uint16_t port = 0;
	std::list<Sess> sessions;
	Sess *cur = nullptr, *scur = nullptr;
	size_t next = 0;
	std::unique_ptr<http::ClientConnection> cc;
	std::unique_ptr<http::Server> srv;
	std::unique_ptr<TCPAcceptor> acceptor;
	std::unique_ptr<http::ServerConnection> bare;
	std::unique_ptr<Timer> begin;
	RawSide r;
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	std::list<Link> links;
	bool done           = false;
	int64_t progress_ns = 0;
	size_t delivered = 0, closes = 0, sessions = 0, fragmented = 0, pongs = 0;
	int pauses = 4;
	void fail(const std::string &sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	void progress() { progress_ns = w.now_ns; }
	std::string name(const Sess &s) { return "session " + std::to_string(s.id); }
	void log(const Sess &s, int side, const std::string &m) { PBT_LOG(c, "session " << s.id << (side ? " server " : " client ") << m << "\n"); }
	static std::string show(const Msg &m) { return "op " + std::to_string(m.op) + " " + std::to_string(m.body.size()) + " bytes" + (m.op == 8 ? " code " + std::to_string(m.code) : ""); }

	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_) {
		progress_ns = w.now_ns;
		size_t n    = 1 + g.below(2);
		for (size_t i = 0; i != n; ++i)
			make_link(int(i));
		w.actions    = [this]() { return done ? 0 : todo(false, 0); };
		w.do_action  = [this](size_t i) { todo(true, i); };
		w.after_event = [this] {
			for (auto &l : links)
				drain(l);
		};
		w.on_connect = [this](const sockaddr_storage &a, sim::EndP peer) {
			for (auto &l : links)
				if (l.port == sim::port_of(a)) {
					small_buffers(l, peer->peer.get(), peer.get());
					if (l.sk == RAW) {
						l.r     = RawSide();
						l.r.raw = peer;
						peer->raw = true, peer->nonblock = true;
						l.scur = l.cur;
						if (l.scur->end == S_BREAK)
							l.r.break_at = g.below(3000);
					}
				}
			return 0;
		};
		w.on_quiet = [this](int) {
			for (auto &l : links)
				if (l.r.raw && l.r.raw->paused) {
					l.r.raw->paused = false;
					return true;
				}
			if (w.now_ns - progress_ns < 200 * 1000000000LL)
				return false;
			done = true;
			loop.cancel();
			return true;
		};
	}
	~Hist() {
		for (auto &l : links)
			l.sessions.clear();
		links.clear();
	}
	void small_buffers(Link &l, sim::End *client, sim::End *server) {
		if (g.flag())
			return;
		bool raw = l.ck == RAW || l.sk == RAW;
		if (l.big[0] || raw)
			client->sndbuf = 100 + g.below(5000);
		if (l.big[1] || raw)
			server->sndbuf = 100 + g.below(5000);
	}
	void make_link(int id) {
		links.emplace_back();
		Link &l = links.back();
		l.id    = id;
		l.port  = uint16_t(80 + id);
		switch (g.below(5)) {
		case 0: l.ck = LIB, l.sk = SRV; break;
		case 1: l.ck = LIB, l.sk = BARE; break;
		case 2: l.ck = RAW, l.sk = SRV; break;
		case 3: l.ck = RAW, l.sk = BARE; break;
		default: l.ck = LIB, l.sk = RAW;
		}
		if (l.ck == LIB && l.sk != RAW)
			l.big[g.below(2)] = false;  // two floods against each other are a known finding
		size_t n = 1 + g.below(3);
		for (size_t i = 0; i != n; ++i) {
			l.sessions.emplace_back();
			Sess &s = l.sessions.back();
			s.l     = &l;
			s.id    = id * 10 + int(i);
			make_session(s, i + 1 == n);
		}
		l.begin.reset(new Timer([this, &l] { begin(l); }));
		if (l.ck == LIB)
			l.cc.reset(new http::ClientConnection([this, &l] { on_client(l); }));
		if (l.sk == SRV) {
			l.srv.reset(new http::Server(Address("0.0.0.0", l.port)));
			l.srv->r_handler = [this, &l](http::Client *who, http::Request &&rq) { on_request(l, who, std::move(rq)); };
		}
		if (l.sk == BARE) {
			l.bare.reset(new http::ServerConnection([this, &l] { on_bare(l); }));
			l.acceptor.reset(new TCPAcceptor(Address("0.0.0.0", l.port), [this, &l] { accept_bare(l); }));
		}
		l.begin->once(0);
	}
	void make_session(Sess &s, bool last) {
		Link &l = *s.l;
		do
			s.end = End(g.pick({last ? 2u : 0u, 2, 2, 1, 1}));
		while ((s.end == S_BREAK && l.sk == SRV) || (s.end == C_CLOSE && l.sk != RAW && l.ck != RAW && l.big[1]) || (s.end == S_CLOSE && l.sk != RAW && l.ck != RAW && l.big[0]));
		s.gets          = g.chance(1, 3) ? 1 + int(g.below(2)) : 0;
		s.answer        = g.flag();
		s.upgrade_delay = g.flag() ? 0 : double(g.below(4)) * 0.05;
		for (int side = 0; side != 2; ++side) {
			size_t small = 40000;
			for (size_t n = g.below(7); n--;) {
				s.script[side].emplace_back();
				Item &i = s.script[side].back();
				i.op    = std::vector<int>{1, 2, 9, 10}[g.pick({4, 4, 2, 1})];
				size_t z = i.op > 8 ? g.below(g.chance(1, 4) ? 126 : 10) : hn::body_size(g, 250000);
				if (!l.big[side])
					z = std::min(z, small / 2), small -= z;
				i.body    = i.op == 1 ? hn::text(g, z) : g.blob(z);
				i.delay   = g.flag() ? 0 : double(g.below(6)) * 0.04;
				i.on_recv = g.chance(1, 4);
				if (i.on_recv)
					i.delay = 1;
				i.buffer = l.sk == BARE && side == 1 && g.chance(1, 4);
			}
			if (!s.script[side].empty() && s.end != STAYS)  // otherwise flushed when idle
				s.script[side].back().buffer = false;
			int closer = s.end == C_CLOSE || s.end == C_BREAK ? 0 : s.end == STAYS ? 2 : 1;
			if (side == closer) {
				s.script[side].emplace_back();
				Item &i = s.script[side].back();
				i.op    = s.end == C_CLOSE || s.end == S_CLOSE ? 8 : BREAK;
				i.delay = double(g.below(8)) * 0.05;
				i.code  = std::vector<uint16_t>{1000, 1001, 1005, 1011, 3000, 4999, 5}[g.below(7)];
				if (i.op == 8 && g.flag())
					i.body = hn::text(g, g.below(g.chance(1, 4) ? 200 : 30));
			}
			for (auto &i : s.script[side])
				PBT_LOG(c, "session " << s.id << (side ? " server " : " client ") << "script: op " << i.op << " " << i.body.size() << " delay " << i.delay << (i.on_recv ? " on receive" : "") << (i.buffer ? " buffered" : "") << "\n");
		}
		PBT_LOG(c, "session " << s.id << " kinds " << l.ck << " " << l.sk << " end " << s.end << " gets " << s.gets << " upgrade after " << s.upgrade_delay << "\n");
	}
	// ---- beginning of a session, at the client
	void begin(Link &l) {
		if (l.next == l.sessions.size())
			return;
		if (l.sk == RAW && l.cur && !l.cur->over[1]) {  // the raw server forgets the broken session
			if (l.r.raw && !l.r.raw->gone())
				l.r.raw->app_close();
			l.r = RawSide();
			finish(*l.cur, 1);
		}
		auto it = l.sessions.begin();
		std::advance(it, l.next++);
		Sess &s = *it;
		l.cur   = &s;
		++sessions;
		progress();
		log(s, 0, "begins");
		s.timer[0].reset(new Timer([this, &s] { fire(s, 0); }));
		s.timer[1].reset(new Timer([this, &s] { fire(s, 1); }));
		s.upgrade.reset(new Timer([this, &s] { upgrade(s); }));
		if (l.ck == LIB) {
			if (!l.cc->connect(Address("127.0.0.1", l.port)))
				fail("connect", "connect failed");
			if (s.gets)
				get(l);
			else
				ask(s);
			return;
		}
		l.r     = RawSide();
		l.r.raw = w.connect_raw(l.port);
		small_buffers(l, l.r.raw.get(), l.r.raw->peer.get());
		for (int i = 0; i != s.gets; ++i)
			l.r.out += "GET /get HTTP/1.1\r\nHost: h\r\n\r\n";
		l.r.key = hn::base64(g.blob(16));
		l.r.out += "GET /ws" + std::to_string(s.id) + " HTTP/1.1\r\nHost: h\r\nUpgrade: " + g.of({"websocket", "WebSocket"}) + "\r\nConnection: " + g.of({"Upgrade", "upgrade", "keep-alive, Upgrade"}) + "\r\nSec-WebSocket-Key: " + l.r.key +
		           "\r\nSec-WebSocket-Version: 13\r\n\r\n";
		if (s.end == C_BREAK && g.flag())
			l.r.break_at = g.below(l.r.out.size() + 3000);
		if (g.flag())  // no need to wait for the answer before sending
			opened(s, 0);
	}
	void get(Link &l) { l.cc->write(http::Request("h", "GET", "/get")); }
	void ask(Sess &s) {
		http::RequestHeader h;
		h.path = "/ws" + std::to_string(s.id);
		s.l->cc->web_socket_upgrade(h);
		opened(s, 0);
	}
	void opened(Sess &s, int side) {
		if (s.open[side])
			return;
		s.open[side] = true;
		arm(s, side);
	}
	void arm(Sess &s, int side) {
		if (s.pos[side] != s.script[side].size() && !s.over[side])
			s.timer[side]->once(s.script[side][s.pos[side]].delay);
	}
	// ---- sending
	void fire(Sess &s, int side) {
		if (s.over[side] || s.pos[side] == s.script[side].size())
			return;
		int kind = side ? s.l->sk : s.l->ck;
		if (s.script[side][s.pos[side]].op == 8 && kind == LIB && !s.upgraded && s.l->sk != RAW) {
			s.timer[side]->once(0.05);  // leaving before the server agreed to the upgrade is leaving before the session
			return;
		}
		Item &i = s.script[side][s.pos[side]++];
		progress();
		if (i.op == BREAK) {
			break_off(s, side, kind);
			return;
		}
		log(s, side, "sends op " + std::to_string(i.op) + " " + std::to_string(i.body.size()));
		if (i.op != 9 && i.op != 10) {
			Msg m{i.op, i.body, http::WebMessage::CLOSE_STATUS_NO_CODE};
			if (i.op == 8) {
				if (!i.body.empty() || i.code != 1005)
					m.code = i.code < 1000 ? uint16_t(1000) : i.code;
				if (m.body.size() > 123)
					m.body.resize(123);
				if (!hn::utf8(m.body))
					m.body.clear();
			}
			s.d[side].sent.push_back(m);
		}
		if (kind == RAW)
			raw_send(s, side, i);
		else {
			http::WebMessage m(http::WebMessageOpcode(i.op), i.body, i.code);
			if (i.op == 8 && s.timer[side])
				s.timer[side]->cancel();
			switch (kind) {
			case LIB: s.l->cc->write(std::move(m)); break;
			case SRV: s.who->write(std::move(m)); break;
			default: s.l->bare->write(std::move(m), i.buffer ? BUFFER_ONLY : WRITE);
			}
		}
		if (i.op != 8)
			arm(s, side);
	}
	void break_off(Sess &s, int side, int kind) {
		log(s, side, "breaks off");
		s.broken = true;
		if (kind == RAW) {
			if (s.l->r.raw && !s.l->r.raw->gone())
				raw_break(*s.l);
			return;
		}
		if (kind == LIB)
			s.l->cc->close();
		else
			s.l->bare->close();
		finish(s, side);
		if (kind == BARE)
			accept_bare(*s.l);
	}
	void raw_break(Link &l) {
		Sess &s  = l.sk == RAW ? *l.scur : *l.cur;
		int side = l.sk == RAW ? 1 : 0;
		s.broken = true;
		if (g.flag())
			l.r.raw->rst();
		else
			l.r.raw->app_close();
		l.r.raw->paused = false;
		l.r.raw.reset();
		finish(s, side);
	}
	uint32_t key() { return uint32_t(g.below(0xFFFFFFFFu)); }
	void raw_send(Sess &s, int side, Item &i) {
		RawSide &r = s.l->r;
		hn::Frame f;
		f.masked = side == 0;
		f.op     = i.op;
		if (i.op >= 8) {
			f.data = i.body;
			if (i.op == 8 && (!i.body.empty() || i.code != 1005)) {
				Msg &m = s.d[side].sent.back();
				f.data = std::string{char(m.code >> 8), char(m.code)} + m.body;
				
			}
			if (i.op == 8)
				r.fin_after = !s.answer || g.flag();
			if (i.op == 9)
				s.d[side].pings.push_back(i.body);
			f.key = key();
			r.out += f.encode();
			return;
		}
		size_t at = 0;
		bool cut  = g.flag();
		do {
			size_t left = i.body.size() - at, n = left;
			if (cut && !(g.chance(1, 4)))
				n = g.below(std::min<size_t>(left, g.flag() ? 10 : 100000) + 1);
			f.key  = key();
			f.data = i.body.substr(at, n);
			at += n;
			f.fin = at == i.body.size() && !(cut && g.chance(1, 4));
			r.out += f.encode();
			if (!f.fin) {
				s.fragments = true;
				f.op        = 0;
				while (g.chance(1, 3)) {
					hn::Frame p;
					p.masked = f.masked;
					p.key    = key();
					p.op     = g.chance(1, 3) ? 10 : 9;
					p.data   = g.blob(g.below(g.chance(1, 4) ? 126 : 8));
					if (p.op == 9)
						s.d[side].pings.push_back(p.data);
					r.out += p.encode();
				}
			}
			if (cut && r.out.size() > 400000)
				cut = false;
		} while (!f.fin);
	}
	// ---- receiving
	void deliver(Sess &s, int side, const Msg &m) {  // side receives
		Dir &d = s.d[1 - side];
		progress();
		log(s, side, "receives " + show(m));
		if (d.closed)
			fail("after-close", name(s) + ": message delivered after CLOSE");
		if (d.got >= d.sent.size())
			fail("extra", name(s) + ": message delivered that was not sent, " + show(m));
		const Msg &x = d.sent[d.got++];
		if (x.op != m.op)
			fail("type", name(s) + ": message " + std::to_string(d.got) + " has opcode " + std::to_string(m.op) + " instead of " + std::to_string(x.op));
		if (x.body != m.body)
			fail("body", name(s) + ": message " + std::to_string(d.got) + " of " + std::to_string(m.body.size()) + " bytes differs from the one sent, " + std::to_string(x.body.size()) + " bytes");
		++delivered;
		if (m.op == 8) {
			++closes;
			d.closed = true;
			if (x.code != m.code)
				fail("code", name(s) + ": close code " + std::to_string(m.code) + " instead of " + std::to_string(x.code));
			s.timer[side]->cancel();
			s.pos[side] = s.script[side].size();
			if (s.answer && (side ? s.l->sk : s.l->ck) != RAW && (d.sent.back().op == 8) && (s.d[side].sent.empty() || s.d[side].sent.back().op != 8)) {
				Item i;
				i.op   = 8;
				i.code = 1000;
				s.script[side].push_back(i);
				fire(s, side);
			}
			return;
		}
		if (s.open[side] && s.pos[side] != s.script[side].size() && s.script[side][s.pos[side]].on_recv)
			fire(s, side);
	}
	void deliver(Sess &s, int side, http::WebMessage &&m) { deliver(s, side, Msg{int(m.opcode), m.body, m.close_code}); }
	void finish(Sess &s, int side) {  // side knows that it is over
		if (s.over[side])
			return;
		progress();
		log(s, side, "is over");
		s.over[side] = true;
		s.timer[side]->cancel();
		if (side)
			s.upgrade->cancel();
		if (!s.broken && s.end != C_CLOSE && s.end != S_CLOSE)
			fail("lost", name(s) + " ended though neither side wanted it");
		if (!s.broken) {
			bool asked = false;
			for (auto &d : s.d)
				for (auto &m : d.sent)
					asked |= m.op == 8;
			if (!asked)
				fail("lost", name(s) + " ended before CLOSE was sent");
		}
		if (!s.next && s.over[0] && (s.over[1] || (s.broken && (!s.upgraded || g.flag()))))
			s.next = true, s.l->begin->once(g.flag() ? 0 : 0.1);
	}
	// ---- library client
	void on_client(Link &l) {
		Sess &s = *l.cur;
		if (s.over[0])
			fail("after-close", name(s) + ": client handler called after close");
		if (!l.cc->is_open()) {
			finish(s, 0);
			return;
		}
		http::Response r;
		while (l.cc->is_open() && l.cc->read_next(r)) {
			if (r.header.status != 200 || r.body != "get")
				fail("get", name(s) + ": wrong response before the upgrade");
			if (++s.gets_done < s.gets)
				get(l);
			else
				ask(s);
		}
		http::WebMessage m;
		while (l.cc->is_open() && l.cc->read_next(m))
			deliver(s, 0, std::move(m));
	}
	// ---- library server
	Sess *find(Link &l, const std::string &path) {
		for (auto &s : l.sessions)
			if (path == "/ws" + std::to_string(s.id))
				return &s;
		fail("request", "request of an unknown path " + path);
		return nullptr;
	}
	http::Response get_response() {
		http::Response r;
		r.header.status = 200;
		r.set_body("get");
		return r;
	}
	void on_request(Link &l, http::Client *who, http::Request &&rq) {
		progress();
		if (rq.header.path == "/get")
			return who->write(get_response());
		Sess &s = *find(l, rq.header.path);
		if (!rq.header.is_websocket_upgrade())
			fail("request", name(s) + ": request is not an upgrade");
		s.who = who;
		if (s.upgrade_delay == 0)
			return upgrade(s);
		who->postpone_response([this, &s] {
			log(s, 1, "lost before the upgrade");
			s.who = nullptr;
			if (!s.broken)
				fail("lost", name(s) + " lost before the upgrade");
			finish(s, 1);
		});
		s.upgrade->once(s.upgrade_delay);
	}
	void upgrade(Sess &s) {
		if (s.over[1])
			return;
		progress();
		log(s, 1, "upgrades");
		s.upgraded = true;
		if (s.l->sk == SRV)
			s.who->web_socket_upgrade([this, &s](http::WebMessage &&m) {
				if (s.told)
					fail("told", name(s) + ": handler called after the disconnect was told");
				auto &d = s.d[0];
				if (m.is_close() && !(d.got < d.sent.size() && d.sent[d.got].op == 8 && !(s.broken && m.close_code == 1006))) {
					bool sent = false;
					for (auto &x : s.d[1].sent)
						sent |= x.op == 8;
					if (d.closed || !m.body.empty() || m.close_code != (sent ? 1000 : 1006))
						fail("told", name(s) + ": disconnect told wrongly, code " + std::to_string(m.close_code));
					if (!sent && !s.broken)
						fail("lost", name(s) + ": disconnect told, but nobody left");
					s.told = true;
					finish(s, 1);
					return;
				}
				deliver(s, 1, std::move(m));
				if (d.closed)
					finish(s, 1);
			});
		else
			s.l->bare->web_socket_upgrade();
		opened(s, 1);
		if (s.script[1].size() && s.script[1][0].delay == 0 && s.script[1][0].op != BREAK && g.flag())
			fire(s, 1);
	}
	void accept_bare(Link &l) {
		if (!l.bare->is_open() && l.acceptor->can_accept()) {
			l.bare->accept(*l.acceptor);
			l.scur = nullptr;
		}
	}
	Sess *unasked(Link &l) {  // broken off before its request was complete
		for (auto &s : l.sessions)
			if (s.broken && !s.upgraded && !s.over[1])
				return &s;
		return nullptr;
	}
	void on_bare(Link &l) {
		if (!l.bare->is_open()) {
			if (l.scur)
				finish(*l.scur, 1);
			else if (Sess *s = unasked(l))
				finish(*s, 1);
			else
				fail("lost", "connection lost before the upgrade");
			l.scur = nullptr;
			accept_bare(l);
			return;
		}
		while (l.bare->is_open()) {
			http::Request rq;
			http::WebMessage m;
			if (l.bare->read_next(m)) {
				if (!l.scur)
					fail("extra", "message before the upgrade");
				deliver(*l.scur, 1, std::move(m));
			} else if (l.bare->read_next(rq)) {
				progress();
				if (rq.header.path == "/get") {
					l.bare->write(get_response());
					continue;
				}
				l.scur = find(l, rq.header.path);
				if (!rq.header.is_websocket_upgrade())
					fail("request", name(*l.scur) + ": request is not an upgrade");
				if (l.scur->upgrade_delay == 0)
					upgrade(*l.scur);
				else
					l.scur->upgrade->once(l.scur->upgrade_delay);
			} else
				break;
		}
	}
	// ---- raw side
	size_t todo(bool act, size_t i) {
		size_t n = 0;
		for (auto &l : links) {
			auto &r = l.r;
			if (!r.raw || r.raw->gone())
				continue;
			auto option = [&](bool possible) {
				if (!possible)
					return false;
				return n++ == i && act;
			};
			if (option(!r.out.empty())) {
				size_t k = r.out.size();
				switch (g.pick({4, 2, 2})) {
				case 0: break;
				case 1: k = 1 + g.below(std::min<size_t>(k, 30)); break;
				default: k = 1 + g.below(k);
				}
				if (k >= r.break_at) {
					r.raw->send(r.out.substr(0, r.break_at));
					raw_break(l);
					return 0;
				}
				if (r.break_at != SIZE_MAX)
					r.break_at -= k;
				r.raw->send(r.out.substr(0, k));
				r.out.erase(0, k);
				return 0;
			}
			if (option(r.out.empty() && r.fin_after && !r.fin_done)) {
				r.raw->fin();
				r.fin_done = true;
				return 0;
			}
			if (option(pauses && !r.raw->paused)) {
				r.raw->paused = true;
				--pauses;
				return 0;
			}
			if (option(r.raw->paused)) {
				r.raw->paused = false;
				return 0;
			}
		}
		return n;
	}
	void drain(Link &l) {
		auto &r = l.r;
		if (!r.raw)
			return;
		int side = l.sk == RAW ? 1 : 0;
		Sess &s  = l.sk == RAW ? *l.scur : *l.cur;
		if (!r.raw->rq.empty())
			raw_input(l, s, side, r.raw->take());
		if (r.raw && r.raw->gone()) {
			bool closing = !s.d[side].sent.empty() && s.d[side].sent.back().op == 8;
			if (r.raw->dead && !closing && !s.broken)
				fail("reset", name(s) + ": connection was reset by the library");
			r.raw->app_close();
			r.raw.reset();
			finish(s, side);
		}
	}
	void raw_input(Link &l, Sess &s, int side, const std::string &bytes) {
		auto &r = l.r;
		if (!r.head_done) {
			r.in += bytes;
			if (side == 0) {
				r.head.feed(r.in);
				r.in.clear();
				if (!r.head.error.empty())
					fail("handshake", name(s) + ": " + r.head.error);
				if (!r.head.stop_after)
					return;
				r.in = r.head.buf;
				if (int(r.head.out.size()) != s.gets + 1)
					fail("get", name(s) + ": wrong number of responses before the upgrade");
				auto a = r.head.out.back().find("sec-websocket-accept");
				if (!a || *a != hn::ws_accept(r.key))
					fail("handshake", name(s) + ": wrong Sec-WebSocket-Accept");
				check_upgrade(s, r.head.out.back());
				r.head_done = true;
				opened(s, 0);
			} else
				while (!r.head_done) {
					size_t e = r.in.find("\r\n\r\n");
					if (e == std::string::npos)
						return;
					r.head.request = true;
					r.head.out.clear();
					r.head.feed(r.in.substr(0, e + 4));
					r.in.erase(0, e + 4);
					if (!r.head.error.empty() || r.head.out.empty())
						fail("handshake", name(s) + ": " + r.head.error);
					auto &m = r.head.out.back();
					if (m.start == "GET /get HTTP/1.1") {
						r.out += "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nget";
						return;
					}
					auto k = m.find("sec-websocket-key"), v = m.find("sec-websocket-version");
					check_upgrade(s, m);
					if (m.start != "GET /ws" + std::to_string(s.id) + " HTTP/1.1" || !v || *v != "13" || !k || k->size() != 24 || k->substr(22) != "==" || k->find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/") != 22)
						fail("handshake", name(s) + ": wrong upgrade request");
					r.out += "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + hn::ws_accept(*k) + "\r\n\r\n";
					r.head_done = true;
					opened(s, 1);
				}
			r.fp.feed(r.in);
			r.in.clear();
		} else
			r.fp.feed(bytes);
		if (!r.fp.error.empty())
			fail("frame", name(s) + ": " + r.fp.error);
		while (r.seen != r.fp.out.size()) {
			hn::Frame f = r.fp.out[r.seen++];
			frame(s, side, f);
			if (!r.raw)
				return;
		}
	}
	void check_upgrade(Sess &s, const hn::Msg &m) {
		auto u = m.find("upgrade"), k = m.find("connection");
		if (!u || hn::lower(*u) != "websocket" || !k || hn::lower(*k).find("upgrade") == std::string::npos)
			fail("handshake", name(s) + ": upgrade headers missing");
	}
	void frame(Sess &s, int side, const hn::Frame &f) {
		auto &r = s.l->r;
		if (f.rsv)
			fail("frame", name(s) + ": reserved bits set");
		if (f.masked != (side == 1))
			fail("mask", name(s) + (f.masked ? ": server sent a masked frame" : ": client sent an unmasked frame"));
		if (f.op >= 8 && (!f.fin || f.data.size() > 125))
			fail("frame", name(s) + ": control frame fragmented or too long");
		if (s.d[1 - side].closed)
			fail("frame", name(s) + ": frame after CLOSE");
		switch (f.op) {
		case 9: return;  // sent by the server when idle
		case 10: {
			auto &d = s.d[side];
			if (f.data.empty() && (d.pongs == d.pings.size() || !d.pings[d.pongs].empty()))
				return;  // unsolicited, sent by the script
			progress();
			if (d.pongs >= d.pings.size() || d.pings[d.pongs] != f.data) {
				for (auto &i : s.script[1 - side])
					if (i.op == 10 && i.body == f.data)
						return;
				fail("pong", name(s) + ": PONG does not answer the oldest unanswered PING");
			}
			++d.pongs;
			++pongs;
			return;
		}
		case 8: {
			Msg m{8, "", http::WebMessage::CLOSE_STATUS_NO_CODE};
			if (f.data.size() == 1)
				fail("frame", name(s) + ": CLOSE with half a code");
			if (f.data.size() >= 2) {
				m.code = uint16_t(static_cast<unsigned char>(f.data[0]) << 8 | static_cast<unsigned char>(f.data[1]));
				m.body = f.data.substr(2);
				if (!hn::utf8(m.body))
					m.body.clear();
			}
			deliver(s, side, m);
			return;
		}
		case 0:
			if (!r.part_op)
				fail("frame", name(s) + ": continuation of nothing");
			break;
		case 1:
		case 2:
			if (r.part_op)
				fail("frame", name(s) + ": message within a message");
			r.part_op = f.op;
			r.part.clear();
			break;
		default: fail("frame", name(s) + ": opcode " + std::to_string(f.op));
		}
		r.part += f.data;
		if (f.fin) {
			int op    = r.part_op;
			r.part_op = 0;
			deliver(s, side, Msg{op, r.part, http::WebMessage::CLOSE_STATUS_NO_CODE});
		}
	}
	void verdict() {
		for (auto &l : links) {
			if (l.next != l.sessions.size())
				fail("stuck", name(*l.cur) + " does not end: client " + (l.cur->over[0] ? "over" : "not over") + ", server " + (l.cur->over[1] ? "over" : "not over"));
			for (auto &s : l.sessions) {
				for (int from = 0; from != 2; ++from) {
					Dir &d     = s.d[from];
					bool whole = !s.broken && (s.end == STAYS || s.end == (from ? S_CLOSE : C_CLOSE));
					if (whole && s.pos[from] != s.script[from].size())
						fail("stuck", name(s) + (from ? ": server" : ": client") + " could not send everything");
					if (whole && d.got != d.sent.size())
						fail("missing", name(s) + ": " + std::to_string(d.sent.size() - d.got) + " messages of " + (from ? "server" : "client") + " were not delivered");
					if (whole && s.end == STAYS && d.pongs != d.pings.size())
						fail("pong", name(s) + ": PING without PONG");
				}
				if (s.end != STAYS && !(s.over[0] && s.over[1]) && !(s.broken && !s.upgraded))
					fail("stuck", name(s) + ": " + (s.over[0] ? "server" : "client") + " does not learn of the end");
			}
		}
	}
};
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	std::cout.rdbuf(nullptr);
	sim::World w(g, c);
	w.max_waits = 60000;
	bool nt     = false;
	std::string sig, err;
	{
		Hist h(g, c, w);
		try {
			h.loop.run();
			h.verdict();
		} catch (const sim::Abort &) {
		}
		sig = h.error_sig, err = h.error;
		static const char *const en[] = {"stays open", "client closes", "server closes", "client breaks off", "server breaks off"};
		bool frag = false;
		for (auto &l : h.links) {
			c.cls(l.ck == RAW ? l.sk == SRV ? "raw to server" : "raw to connection object" : l.sk == SRV ? "library client to server" : l.sk == BARE ? "library client to connection object" : "library client to raw");
			for (auto &s : l.sessions) {
				c.cls(en[s.end]);
				if (s.fragments)
					frag = true, c.cls("fragmented");
			}
		}
		if (h.pongs)
			c.cls("pings answered");
		if (w.eagain_sends)
			c.cls("socket buffer full");
		if (h.sessions > h.links.size())
			c.cls("session on a used object");
		nt = h.delivered >= 3 && (frag || h.closes || w.eagain_sends || h.sessions > h.links.size());
	}
	if (!err.empty())
		c.fail(sig, err);
	w.finish();
	if (nt)
		c.nontrivial();
}
std::string prop_probe(const std::string &name) {
	if (name != "both-sides-flood")
		return "unknown probe";
	std::cout.rdbuf(nullptr);
	Gen g(std::vector<uint64_t>{}, 1);
	Ctx c;
	sim::World w(g, c);
	size_t got[2] = {0, 0};
	{
		RunLoop loop;
		std::string big(300000, 'x');
		auto flood = [&](std::function<void(http::WebMessage &&)> write) {
			for (int i = 0; i != 3; ++i)
				write(http::WebMessage(http::WebMessageOpcode::BINARY, big));
		};
		http::Server server(Address("0.0.0.0", 80));
		server.r_handler = [&](http::Client *who, http::Request &&) {
			who->web_socket_upgrade([&](http::WebMessage &&m) { got[0] += m.is_binary(); });
			flood([&](http::WebMessage &&m) { who->write(std::move(m)); });
		};
		http::ClientConnection cc([&] {
			http::WebMessage m;
			while (cc.read_next(m))
				got[1] += m.is_binary();
		});
		http::RequestHeader h;
		h.path = "/";
		if (!cc.connect(Address("127.0.0.1", 80)))
			return "cannot connect";
		cc.web_socket_upgrade(h);
		flood([&](http::WebMessage &&m) { cc.write(std::move(m)); });
		int64_t from = w.now_ns;
		w.on_quiet   = [&](int) {
			if (w.now_ns - from > 1000000000000LL || (got[0] == 3 && got[1] == 3))
				loop.cancel();
			else
				return false;
			return true;
		};
		loop.run();
	}
	w.finish();
	if (got[0] == 3 && got[1] == 3)
		return "";
	return "client and server that send 3 messages of 300000 bytes at the same time: server received " + std::to_string(got[0]) + ", client received " + std::to_string(got[1]) + " in 1000 seconds";
}
