#include <iostream>
#include <list>
#include <crab/crab.hpp>
#include "../ref/http_net.hpp"
#include "../sim.hpp"
const char *const PROP_ID   = "C30";
const char *const PROP_RULE =
    "2-9 raw connections to a server with a limit of 1-5 connections (or none), sometimes a limit of descriptors and accept errors; requests answered at once, late, never, by exception, by a stream that never ends, or upgraded to WebSocket (at once or late; "
    "echo, close by server, handler that throws, stream, CLOSE, broken frames); connections leave by FIN, reset, error or abandonment at any time; some peers do not close when the server ends the connection (also after a response bigger than the socket buffer); disconnect handlers write to and answer other connections; sometimes the server is destroyed in between; "
    "non-trivial: at least 2 connections were lost while the application cared about them, or a connection waited for a free place and got it";
using namespace crab;
using namespace pbt;
namespace {
struct Conn {
	int id = 0;
	sim::EndP raw;
	std::string out;
	bool started = false, served = false, left = false, done = false, probe = false, waited = false;
	bool stubborn = false;  // does not close when the server ends the connection
	int64_t fin_ns = 0;
	int end         = 0;
	size_t end_at   = SIZE_MAX, sent = 0;
	size_t asked    = 0;
	hn::MsgParser parser;
	http::Client *ws = nullptr;  // upgraded and not yet told that it is closed
	int upgrades = 0, ws_closed = 0;
	bool server_closed = false, streaming = false;
};
struct Job {
	Conn *k;
	char kind;
	http::Client *who;
	bool over = false, told = false, in = false;
	std::unique_ptr<Timer> timer;
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	std::list<Conn> conns;
	std::list<Job> jobs;
	std::unique_ptr<http::Server> server;
	std::unique_ptr<Timer> end_of_server;
	size_t limit = 0, probes = 0, told = 0, waited = 0, held = 0;
	int phase           = 0;
	bool destroyed      = false;
	int64_t progress_ns = 0, change_ns = 0;
	void fail(const std::string &sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	void progress() { progress_ns = change_ns = w.now_ns; }
	std::string name(const Conn &k) { return "connection " + std::to_string(k.id); }
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_) {
		progress();
		if (g.flag())
			w.burst = unsigned(3 + g.below(12));
		http::Server::Settings st;
		limit = g.chance(1, 3) ? 1000 : 1 + g.below(4);
		if (limit < 1000)
			st.max_connections = limit;
		server.reset(new http::Server(Address("0.0.0.0", 80), st));
		server->r_handler = [this](http::Client *who, http::Request &&rq) { on_request(who, std::move(rq)); };
		size_t room       = 1000;
		if (g.chance(1, 4)) {
			room       = 1 + g.below(5);
			w.fd_limit = w.files.size() + room;
		}
		probes = std::min<size_t>(3, std::min(limit, room));
		PBT_LOG(c, "limit " << limit << " descriptors " << room << "\n");
		for (size_t n = 2 + g.below(8), i = 0; i != n; ++i)
			make_conn(int(i));
		if (g.chance(1, 12)) {
			end_of_server.reset(new Timer([this] {
				destroyed = true;
				PBT_LOG(c, "server is destroyed\n");
				server.reset();
			}));
			end_of_server->once(0.01 * double(g.below(300)));
		}
		if (g.chance(1, 4))
			w.accept_fault = [this] {
				if (phase || !g.chance(1, 3))
					return 0;
				change_ns = w.now_ns;
				return int(g.of(std::vector<int>{EINTR, EMFILE, ENFILE, ENOBUFS, ENOMEM, ECONNABORTED, EPERM, ENETDOWN}));
			};
		w.actions     = [this]() { return phase == 1 ? 0 : todo(false, 0); };
		w.do_action   = [this](size_t i) { todo(true, i); };
		w.after_event = [this] {
			change_ns = w.now_ns;
			for (auto &k : conns)
				drain(k);
		};
		w.on_quiet = [this](int timeout) {
			for (auto &k : conns)
				if (timeout && k.done && !k.left && k.raw->peer->fd >= 0 && w.now_ns - k.fin_ns > 20 * 1000000000LL)
					fail("stuck", name(k) + ": the server ended the connection " + std::to_string((w.now_ns - k.fin_ns) / 1000000000LL) + " s ago, but still keeps its place");
			if (timeout && w.now_ns - change_ns > 2200 * 1000000LL)
				not_starved();
			if (w.now_ns - progress_ns < 70 * 1000000000LL)
				return false;
			progress();
			if (phase == 0) {
				for (auto &k : conns)
					if (k.started && !(k.done && k.raw->orphan))
						leave(k, k.left ? 2 : 2 + int(g.below(3)));
				phase = 1;
				return true;
			}
			if (phase == 1) {
				verdict();
				if (destroyed) {
					loop.cancel();
					return true;
				}
				for (size_t i = 0; i != probes; ++i) {
					conns.emplace_back();
					Conn &k = conns.back();
					k.id    = int(100 + i);
					k.probe = true;
					k.out   = "GET /n HTTP/1.1\r\nHost: h\r\n\r\n";
				}
				phase = 2;
				return true;
			}
			for (auto &k : conns)
				if (k.probe && k.parser.out.size() != 1)
					fail("starved", "all connections are gone, but a new one is not served (" + std::to_string(probes) + " asked)");
			loop.cancel();
			return true;
		};
	}
	std::string frame(int op, const std::string &d, bool masked = true) {
		hn::Frame f;
		f.op     = op;
		f.data   = d;
		f.masked = masked;
		f.key    = uint32_t(g.below(0xFFFFFFFFu));
		return f.encode();
	}
	void make_conn(int id) {
		conns.emplace_back();
		Conn &k = conns.back();
		k.id    = id;
		std::string kinds;
		for (size_t n = g.below(4); n--;)
			kinds += g.of({"n", "n", "l", "t"});
		if (g.chance(4, 5))
			kinds += g.of({"p", "p", "f", "F", "u", "U", "W", "c", "b", "C"});
		k.stubborn = g.chance(1, 4);
		for (char kind : kinds) {
			std::string h = std::string("GET /") + kind + " HTTP/1.1\r\nHost: h\r\n";
			switch (kind) {
			case 'c': h = "GET /n HTTP/1.1\r\nHost: h\r\nConnection: close\r\n"; break;
			case 'C': h += "Connection: close\r\n"; break;
			case 'b': h = "GET /n HTTP/1.1\r\nbroken\r\n"; break;
			case 'u':  // upgrade at once, late
			case 'U':
			case 'W': h += "Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + hn::base64(g.blob(16)) + "\r\nSec-WebSocket-Version: 13\r\n"; break;
			}
			k.out += h + "\r\n";
			if (kind != 'u' && kind != 'U' && kind != 'W')
				continue;
			for (size_t n = g.below(3); n--;)
				k.out += frame(1, "echo");
			switch (g.below(8)) {
			case 0: k.out += frame(1, "bye"); break;
			case 1: k.out += frame(1, "throw"); break;
			case 2: k.out += frame(1, "stream"); break;
			case 3: k.out += frame(8, std::string("\x03\xe8") + "done"); break;
			case 4: k.out += frame(3, "broken"); break;
			case 5: k.out += frame(1, "\xff\xfe"); break;
			case 6: k.out += frame(1, "bye") + frame(8, "\x03\xe9"); break;
			}
		}
		if (g.chance(2, 3)) {
			k.end    = 1 + int(g.below(4));
			k.end_at = g.chance(1, 2) ? k.out.size() : g.below(k.out.size() + 1);
		}
		PBT_LOG(c, name(k) << " requests " << kinds << " leaves " << k.end << " after " << (k.end ? k.end_at : 0) << " of " << k.out.size() << "\n");
	}
	// ---- application
	Conn &conn_of(const Address &a) {
		for (auto &k : conns)
			if (k.raw && sim::port_of(k.raw->local) == a.get_port())
				return k;
		fail("harness", "unknown peer");
		throw 0;
	}
	void alive(const char *what) {
		if (destroyed)
			fail("told", std::string(what) + " called after the server was destroyed");
	}
	void respond(Job &j) {
		PBT_LOG(c, name(*j.k) << " answered\n");
		progress();
		j.over = true;
		http::Response r;
		r.header.status = 200;
		r.set_body("late");
		j.who->write(std::move(r));
	}
	void on_told() {  // the application uses the occasion to write to others
		++told;
		progress();
		if (!g.chance(1, 3))
			return;
		for (auto &k : conns)
			if (k.ws && !k.server_closed && !k.streaming && g.flag())
				k.ws->write(http::WebMessage("somebody left"));
		for (auto &j : jobs)
			if (!j.over && !j.told && (j.kind == 'p' || j.kind == 'l') && g.flag())
				respond(j);
	}
	void upgrade(Conn &k, http::Client *who) {
		k.ws = who;
		++k.upgrades;
		who->web_socket_upgrade([this, &k, who](http::WebMessage &&m) {
			alive("message handler");
			progress();
			if (k.ws_closed)
				fail("told", name(k) + ": WebSocket handler called after CLOSE");
			if (m.is_close()) {
				PBT_LOG(c, name(k) << " told CLOSE " << m.close_code << "\n");
				++k.ws_closed;
				bool alive = who->is_open();
				if (!alive && m.close_code != (k.server_closed ? 1000 : 1006))
					fail("code", name(k) + ": reason of the disconnect is " + std::to_string(m.close_code));
				if (alive && m.close_code != 1000 && m.close_code != 1001)
					fail("code", name(k) + ": CLOSE of the peer arrived with " + std::to_string(m.close_code));
				if (alive && !k.server_closed && g.flag()) {
					k.server_closed = true;
					who->write(http::WebMessage(http::WebMessageOpcode::CLOSE));
				}
				k.ws = nullptr;
				on_told();
				if (g.chance(1, 4)) {
					k.server_closed = true;
					throw std::runtime_error("handler throws on CLOSE");
				}
				return;
			}
			if (m.body == "bye") {
				k.server_closed = true;
				return who->write(http::WebMessage(http::WebMessageOpcode::CLOSE, "bye", 1000));
			}
			if (m.body == "throw") {
				k.server_closed = true;
				throw std::runtime_error("handler throws");
			}
			k.streaming = m.body == "stream";
			if (k.streaming)
				return stream(k, who, true);
			if (!k.server_closed)
				who->write(std::move(m));
		});
	}
	void on_request(http::Client *who, http::Request &&rq) {
		alive("request handler");
		Conn &k = conn_of(who->get_peer_address());
		progress();
		k.served = true;
		waited += k.waited;
		size_t live = 0;
		for (auto &o : conns)
			live += o.served && o.raw->peer->fd >= 0;
		if (live > limit)
			fail("limit", std::to_string(live) + " connections are served, limit " + std::to_string(limit));
		char kind = rq.header.path.size() > 1 ? rq.header.path[1] : 'n';
		PBT_LOG(c, name(k) << " asks " << kind << "\n");
		switch (kind) {
		case 't': throw std::runtime_error("request fails");
		case 'u':
		case 'U': return upgrade(k, who);
		case 'f':
		case 'F': return stream(k, who, false, kind == 'F');
		case 'l':
		case 'p':
		case 'W': break;
		case 'C': return who->write(http::Response::simple_text(200, std::string(60000 + g.below(150000), 'x')));
		default: return who->write(http::Response::simple_text(200, "now"));
		}
		jobs.emplace_back();
		Job *j  = &jobs.back();
		j->k    = &k;
		j->kind = kind;
		j->who  = who;
		who->postpone_response([this, j] {
			alive("disconnect handler");
			PBT_LOG(c, name(*j->k) << " told\n");
			if (j->told || j->over)
				fail("told", name(*j->k) + ": disconnect handler called " + (j->told ? "twice" : "after the response"));
			j->told = true;
			on_told();
		});
		if (kind == 'p')
			return;
		j->timer.reset(new Timer([this, j] {
			if (destroyed || j->told || j->over)
				return;
			if (j->kind == 'l')
				return respond(*j);
			j->over = true;
			upgrade(*j->k, j->who);
		}));
		j->timer->once(0.01 * double(g.below(100)));
	}
	void stream(Conn &k, http::Client *who, bool ws, bool known = false) {
		jobs.emplace_back();
		Job *j  = &jobs.back();
		j->k    = &k;
		j->kind = 's';
		j->who  = who;
		j->timer.reset(new Timer([this, j] {
			if (destroyed || j->told)
				return;
			if (j->who->is_open() && j->who->can_write())
				j->who->write("data", 4);
			j->timer->once(1);
		}));
		auto handler = [this, j] {
			alive("stream handler");
			if (j->told)
				fail("told", name(*j->k) + ": stream handler called after it was told of the disconnect");
			if (j->who->is_open())
				return;
			PBT_LOG(c, name(*j->k) << " told stream\n");
			j->told = true;
			on_told();
		};
		j->timer->once(1);
		if (ws)
			return who->start_write_stream(http::WebMessageOpcode::TEXT, handler);
		http::ResponseHeader h;
		h.status = 200;
		if (known)
			h.content_length = 1000000000;
		else
			h.transfer_encoding_chunked = true;
		who->start_write_stream(h, handler);
	}
	// ---- peers
	void leave(Conn &k, int how) {
		PBT_LOG(c, name(k) << " leaves " << how << "\n");
		k.left = true;
		k.out.clear();
		switch (how) {
		case 1: k.raw->fin(); break;
		case 2: k.raw->rst(); break;
		case 3: k.raw->app_close(); break;
		default:
			k.raw->rst_errno = int(g.of(std::vector<int>{ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, EPIPE}));
			k.raw->rst();
		}
	}
	size_t todo(bool act, size_t i) {
		size_t n    = 0;
		auto option = [&](bool possible) { return possible && n++ == i && act; };
		for (auto &k : conns) {
			if (option(!k.started && !destroyed && (phase == 0 || k.probe))) {
				progress();
				k.started = true;
				size_t live = 0;
				for (auto &o : conns)
					live += o.raw && o.raw->peer->fd >= 0;
				k.waited = live > limit;
				k.raw    = w.connect_raw(80);
				return 0;
			}
			if (!k.raw || k.left || k.raw->gone())
				continue;
			if (option(!k.out.empty())) {
				progress();
				size_t m = k.out.size();
				if (g.chance(1, 4))
					m = 1 + g.below(m);
				if (k.sent + m > k.end_at)
					m = k.end_at - k.sent;
				k.raw->send(k.out.substr(0, m));
				k.out.erase(0, m);
				k.sent += m;
				if (k.sent == k.end_at)
					k.out.clear();
				return 0;
			}
			if (option(k.end && k.sent == k.end_at)) {
				progress();
				leave(k, k.end);
				return 0;
			}
		}
		return n;
	}
	void drain(Conn &k) {
		if (!k.raw)
			return;
		if (k.done) {
			if (k.stubborn && !k.left && k.raw->peer->fd < 0)
				held += 1, leave(k, 3);
			return;
		}
		if (k.raw->rq.size()) {
			std::string s = k.raw->take();
			if (k.probe)
				k.parser.feed(s);
		}
		if (k.raw->gone()) {
			k.done = true;
			PBT_LOG(c, name(k) << " was closed by the server\n");
			k.fin_ns = w.now_ns;
			if (!k.left && (!k.stubborn || k.raw->dead))
				leave(k, 3);
		}
	}
	void not_starved() {
		if (destroyed)
			return;
		size_t live = 0, waiting = 0;
		for (auto &k : conns) {
			if (!k.started)
				continue;
			auto &p = k.raw->peer;
			live += p->fd >= 0;
			if (p->fd < 0 && !k.served && !p->orphan && !p->dead && !k.left)
				++waiting;
		}
		if (waiting && live < limit && !w.full())
			fail("starved", std::to_string(waiting) + " connections are waiting, only " + std::to_string(live) + " of " + std::to_string(limit) + " places are taken");
	}
	void verdict() {
		for (auto &k : conns) {
			if (k.started && k.raw->peer->fd >= 0)
				fail("leak", name(k) + " is gone, but the server keeps its socket");
			if (!destroyed && k.ws_closed != k.upgrades)
				fail("told", name(k) + ": WebSocket handler was told of the end " + std::to_string(k.ws_closed) + " times");
		}
		for (auto &j : jobs)
			if (!destroyed && !j.over && !j.told)
				fail("told", name(*j.k) + " is gone, but the application was not told (" + j.kind + ")");
	}
};
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	std::cout.rdbuf(nullptr);
	sim::World w(g, c);
	bool nt = false;
	std::string sig, err;
	{
		Hist h(g, c, w);
		try {
			h.loop.run();
		} catch (const sim::Abort &) {
		}
		sig = h.error_sig, err = h.error;
		for (auto &j : h.jobs)
			c.cls(j.told ? j.kind == 's' ? "lost while streaming" : "lost while postponed" : j.kind == 'W' ? "upgraded late" : "answered late");
		for (auto &k : h.conns)
			if (k.ws_closed)
				c.cls(k.server_closed ? "WebSocket closed by server" : "WebSocket lost or closed by peer");
		if (h.held)
			c.cls("peer did not close after the server's end");
		if (h.waited)
			c.cls("waited for a place");
		if (h.destroyed)
			c.cls("server destroyed");
		if (w.fd_limit < 1000)
			c.cls("limit of descriptors");
		if (w.accept_fault)
			c.cls("accept errors");
		nt = h.told >= 2 || h.waited;
	}
	if (!err.empty())
		c.fail(sig, err);
	w.finish();
	if (nt)
		c.nontrivial();
}
std::string prop_probe(const std::string &name) {
	if (name != "postponed-with-pipelined-bytes")
		return "unknown probe";
	std::cout.rdbuf(nullptr);
	Gen g(std::vector<uint64_t>{}, 1);
	Ctx c;
	sim::World w(g, c);
	bool told = false, asked = false;
	{
		RunLoop loop;
		http::Server server(Address("0.0.0.0", 80));
		server.r_handler = [&](http::Client *who, http::Request &&) {
			asked = true;
			who->postpone_response([&] { told = true; });
		};
		auto raw = w.connect_raw(80);
		raw->send("GET /1 HTTP/1.1\r\nHost: h\r\n\r\nGET /2 HTTP/1.1\r\nHost: h\r\n\r\n");
		bool reset   = false;
		int64_t from = w.now_ns;
		w.on_quiet   = [&](int) {
			if (!reset && asked)
				reset = true, raw->rst();
			else if (w.now_ns - from > 1000000000000LL || told)
				loop.cancel();
			else
				return false;
			return true;
		};
		loop.run();
	}
	w.finish();
	if (told)
		return "";
	return "response to the first of two pipelined requests is postponed, connection is reset: the disconnect handler is not called in 1000 seconds";
}
