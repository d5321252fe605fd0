#include <iostream>
#include <list>
#include <crab/crab.hpp>
#include "../ref/http_net.hpp"
#include "../sim.hpp"
const char *const PROP_ID   = "C28";
const char *const PROP_RULE =
    "a library server with 1-3 well-behaved connections (pipelined requests answered at once, later or streamed, or a WebSocket with echo) and 1-4 hostile ones: mutated legal traffic, random bytes, endless heads, absurd lengths and chunks, WebSocket "
    "garbage, floods without reading, one byte at a time, ended by nothing, FIN, reset, error or abandonment at any byte; accept errors; also 0-2 library clients whose server sends mutated responses; non-trivial: a hostile connection was accepted "
    "and at least 10 of its bytes were read while a well-behaved one was active";
using namespace crab;
using namespace pbt;
namespace {
std::string pattern(size_t n, const std::string &tag) {
	std::string r = tag + ":";
	while (r.size() < n)
		r += r.substr(0, std::min(r.size(), n - r.size()));
	return r;
}
struct Plan {
	std::string want;
	bool seen = false;
};
struct Peer {
	int id       = 0;
	bool hostile = false;
	sim::EndP raw;
	std::string out;
	std::vector<Plan> plans;   // well-behaved: responses expected
	std::vector<std::string> echoes;
	bool ws = false, started = false, reads = true, ended = false, small = false, trickle = false, done = false;
	size_t checked = 0, frames_seen = 0, echoed = 0, sent = 0;
	int end = 0;  // 0 stays, 1 FIN, 2 reset, 3 abandoned, 4 error, 5 FIN and close later
	size_t end_at = SIZE_MAX;
	hn::MsgParser parser;
	hn::FrameParser fp;
};
struct Job {
	http::Client *who;
	std::string body;
	bool chunked = false, dead = false, finished = false;
	size_t pos = 0;
	std::unique_ptr<Timer> timer;
};
struct Victim {
	int id = 0;
	std::unique_ptr<http::ClientConnection> cc;
	std::unique_ptr<Timer> again;
	sim::EndP raw;
	std::string reply;
	bool ws = false, open = false, replied = false;
	int tries = 0, end = 0;
	size_t asked = 0, got = 0;
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	std::list<Peer> peers;
	std::list<Job> jobs;
	std::list<Victim> victims;
	std::unique_ptr<http::Server> server;
	int phase = 0, pauses = 3;
	bool overlap        = false;
	int64_t progress_ns = 0;
	void fail(const std::string &sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	void progress() { progress_ns = w.now_ns; }
	std::string name(const Peer &p) { return (p.hostile ? "hostile connection " : "connection ") + std::to_string(p.id); }
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_) {
		progress_ns = w.now_ns;
		server.reset(new http::Server(Address("0.0.0.0", 80)));
		server->r_handler = [this](http::Client *who, http::Request &&rq) { on_request(who, std::move(rq)); };
		size_t good = 1 + g.below(3), bad = 1 + g.below(4);
		for (size_t i = 0; i != good; ++i)
			make_good(int(i));
		for (size_t i = 0; i != bad; ++i)
			make_hostile(int(10 + i));
		for (size_t i = g.chance(1, 3) ? 1 + g.below(2) : 0; i--;)
			make_victim(int(20 + i));
		w.actions     = [this]() { return phase == 2 ? 0 : todo(false, 0); };
		w.do_action   = [this](size_t i) { todo(true, i); };
		w.after_event = [this] {
			for (auto &p : peers)
				drain(p);
			for (auto &v : victims)
				drain(v);
		};
		w.on_connect = [this](const sockaddr_storage &a, sim::EndP peer) {
			for (auto &v : victims)
				if (sim::port_of(a) == 1000 + v.id) {
					v.raw     = peer;
					v.replied = false;
					peer->raw = peer->nonblock = true;
				}
			return 0;
		};
		if (g.chance(1, 3))
			w.accept_fault = [this] {
				if (phase || !g.chance(1, 3))
					return 0;
				static const int errs[] = {EINTR, EMFILE, ENFILE, ENOBUFS, ENOMEM, ENETDOWN, EPROTO, EOPNOTSUPP, EHOSTUNREACH};
				return errs[g.below(9)];
			};
		w.on_quiet = [this](int) {
			for (auto &p : peers)
				if (!p.hostile && p.raw && p.raw->paused) {
					p.raw->paused = false;
					return true;
				}
			if (w.now_ns - progress_ns < 60 * 1000000000LL)
				return false;
			progress();
			if (phase == 0) {  // the hostile ones leave
				served();
				for (auto &p : peers)
					if (p.hostile && p.raw && !p.ended)
						leave(p, p.end ? p.end : 2 + int(g.below(3)));
				for (auto &v : victims)
					if (v.raw)
						v.raw->paused = false, v.raw->app_close();
				phase = 1;
				return true;
			}
			phase = 2;
			loop.cancel();
			return true;
		};
	}
	// ---- traffic
	struct Rq {
		std::string wire, want;
	};
	Rq request(const std::string &tag, bool good) {
		Rq r;
		std::string mode = g.of({"now", "now", "late", "stream", "chunks", "throw", "auth"});
		size_t size      = hn::body_size(g, 60000);
		std::string body;
		bool post = g.flag();
		if (post)
			body = g.blob(hn::body_size(g, 9000));
		r.want = mode == "auth" ? "" : mode == "throw" ? "thrown" + tag : pattern(size, tag + std::to_string(body.size()));
		r.wire = std::string(post ? "POST" : "GET") + " /" + mode + "/" + std::to_string(size) + "/" + tag + " HTTP/1.1\r\nHost: h\r\n";
		if (!good && g.chance(1, 6))
			r.wire += "Connection: close\r\n";
		if (post && g.flag()) {
			r.wire += "Transfer-Encoding: chunked\r\n\r\n";
			size_t pos = 0;
			while (pos != body.size()) {
				size_t n = 1 + g.below(body.size() - pos);
				char h[20];
				snprintf(h, sizeof(h), "%zx\r\n", n);
				r.wire += h + body.substr(pos, n) + "\r\n";
				pos += n;
			}
			r.wire += "0\r\n\r\n";
		} else if (post)
			r.wire += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
		else
			r.wire += "\r\n";
		return r;
	}
	std::string upgrade_request() { return "GET /ws/0/" + std::string(g.chance(1, 4) ? "x" : "e") + " HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + hn::base64(g.blob(16)) + "\r\nSec-WebSocket-Version: 13\r\n\r\n"; }
	hn::Frame frame(int op, const std::string &d, bool masked = true) {
		hn::Frame f;
		f.op     = op;
		f.data   = d;
		f.masked = masked;
		f.key    = uint32_t(g.below(0xFFFFFFFFu));
		return f;
	}
	void make_good(int id) {
		peers.emplace_back();
		Peer &p = peers.back();
		p.id    = id;
		p.small = g.flag();
		size_t n = g.below(5);
		for (size_t i = 0; i != n; ++i) {
			Rq r = request("g" + std::to_string(id) + "_" + std::to_string(i), true);
			p.out += r.wire;
			p.plans.push_back(Plan{r.want, false});
		}
		if (n == 0 || g.chance(1, 3)) {
			p.ws = true;
			std::string u = upgrade_request();
			u.replace(u.find("/0/") + 3, 1, "e");
			p.out += u;
			for (size_t i = 1 + g.below(5); i--;) {
				std::string d = g.blob(hn::body_size(g, 20000));
				p.echoes.push_back(d);
				p.out += frame(2, d).encode();
			}
		}
	}
	std::string mutate(std::string s) {
		for (size_t n = 1 + g.below(3); n--;) {
			if (s.empty())
				return s;
			size_t at = g.below(g.chance(1, 2) ? std::min<size_t>(s.size(), 200) : s.size());
			switch (g.below(8)) {
			case 0: s[at] = char(s[at] ^ (1 << g.below(8))); break;
			case 1: s[at] = char(g.below(256)); break;
			case 2: s.erase(at, 1 + g.below(10)); break;
			case 3: s.insert(at, g.blob(1 + g.below(6))); break;
			case 4: s.insert(at, s.substr(g.below(s.size()), g.below(60))); break;
			case 5: s.resize(at); break;
			case 6: s.insert(at, g.of({"\r\n", "\r\n\r\n", "\n", "\r", " ", ":", "\t", "0\r\n\r\n", "HTTP/1.1", ", chunked", "Content-Length: 5\r\n", "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: identity\r\n", "Content-Length: 18446744073709551616\r\n", "\xff", "%", "%0"})); break;
			default: {
				size_t d = s.find_first_of("0123456789", at);
				if (d != std::string::npos)
					s.insert(d, g.of({"9", "99999999999999999999", "-", "+", "0x", "ffffffffffffffff", "1844674407370955161", "7fffffffffffffff"}));
			}
			}
		}
		return s;
	}
	std::string ws_garbage() {
		std::string r;
		for (size_t n = 1 + g.below(6); n--;) {
			hn::Frame f = frame(int(g.chance(1, 3) ? g.below(16) : g.chance(1, 2) ? 1 + g.below(2) : 8 + g.below(3)), g.blob(hn::body_size(g, 5000)), !g.chance(1, 8));
			if (f.op > 7 && !g.chance(1, 6))
				f.data.resize(std::min<size_t>(f.data.size(), 125));
			f.fin = !g.chance(1, 4);
			if (g.chance(1, 6))
				f.len_form = 1 + int(g.below(2));
			if (g.chance(1, 10))
				f.forced_len = g.of(std::vector<uint64_t>{0x7FFFFFFFFFFFFFFFULL, 0xFFFFFFFFFFFFFFFFULL, 0x100000000ULL, 70000, 0x8000000000000000ULL});
			r += f.encode();
		}
		return g.chance(1, 3) ? mutate(r) : r;
	}
	std::string repeat(const std::string &s, size_t n) {
		std::string r;
		while (n--)
			r += s;
		return r;
	}
	void make_hostile(int id) {
		peers.emplace_back();
		Peer &p   = peers.back();
		p.id      = id;
		p.hostile = true;
		p.parser.any_version = true;
		p.small   = g.flag();
		p.reads   = !g.chance(1, 4);
		p.trickle = g.chance(1, 10);
		p.end     = int(g.below(6));
		if (g.chance(1, 3))
			p.end_at = 1;  // fixed below
		std::string tag = "b" + std::to_string(id);
		switch (g.pick({6, 1, 1, 1, 2, 1, 3, 2, 1})) {
		case 0: {
			std::string s;
			for (size_t n = 1 + g.below(4); n--;)
				s += request(tag, false).wire;
			if (g.chance(1, 3))
				s += upgrade_request() + ws_garbage();
			p.out = g.chance(5, 6) ? mutate(s) : s;
			break;
		}
		case 1: p.out = g.blob(1 + g.below(20000)); break;
		case 2: p.out = "GET /" + repeat(g.of({"a", "/", "%41", "?", "&x="}), 1 + g.below(30000)); break;
		case 3: p.out = "GET / HTTP/1.1\r\n" + repeat(g.of({"a: b\r\n", "X-Y:", " folded\r\n", "Connection: close,", "Cookie: a=b; \r\n", "Content-Length: 5\r\n"}), 1 + g.below(6000)); break;
		case 4:
			p.out = "POST /now/5/" + tag + " HTTP/1.1\r\nHost: h\r\n" + std::string(g.of({"Content-Length: 99999999999999999999\r\n", "Content-Length: 18446744073709551615\r\n", "Content-Length: -1\r\n", "Content-Length: 5\r\nContent-Length: 6\r\n", "Content-Length: 5\r\nTransfer-Encoding: chunked\r\n", "Transfer-Encoding: gzip\r\n", "Transfer-Encoding: chunked, chunked\r\n", "Content-Length: 4000000000\r\n", "Expect: 100-continue\r\nContent-Length: 10\r\n"})) + "\r\n" + g.blob(g.below(20000));
			break;
		case 5:
			p.out = "POST /now/5/" + tag + " HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n" + repeat(g.of({"0", "f", "1\r\na\r\n", "1;ext=\"q\"\r\na\r\n", "\r\n", "ffffffffffffffff\r\n", "fffffffffffffff0\r\nxx", "5\r\nhelloX", "1 \r\na\r\n", "0\r\nTrailer: x\r\n"}), 1 + g.below(3000));
			break;
		case 6: p.out = upgrade_request() + ws_garbage(); break;
		case 7: {  // many requests, answers never read
			std::string one = request(tag, false).wire;
			p.out   = repeat(one, 1 + g.below(std::min<size_t>(200, 200000 / one.size() + 1)));
			p.reads = false;
			break;
		}
		default: p.out = upgrade_request() + repeat(frame(9, g.blob(g.below(126))).encode(), 1 + g.below(3000)), p.reads = false;
		}
		if (p.trickle)
			p.out.resize(std::min<size_t>(p.out.size(), 600));
		if (p.end_at == 1)
			p.end_at = g.below(p.out.size() + 1);
		PBT_LOG(c, name(p) << ": " << p.out.size() << " bytes, end " << p.end << (p.end_at == SIZE_MAX ? "" : " at " + std::to_string(p.end_at)) << (p.reads ? "" : " does not read") << "\n" << Ctx::esc(p.out.substr(0, 300)) << "\n");
	}
	void make_victim(int id) {
		victims.emplace_back();
		Victim &v = victims.back();
		v.id      = id;
		v.tries   = 1 + int(g.below(3));
		v.cc.reset(new http::ClientConnection([this, &v] { on_victim(v); }));
		v.again.reset(new Timer([this, &v] { ask(v); }));
		v.again->once(0.01 * double(g.below(10)));
	}
	// ---- the application
	void on_request(http::Client *who, http::Request &&rq) {
		progress();
		std::string mode, tag;
		size_t size = 0;
		{
			const std::string &s = rq.header.path;
			size_t a = s.find('/', 1), b = a == std::string::npos ? a : s.find('/', a + 1);
			if (b != std::string::npos) {
				mode = s.substr(1, a - 1);
				tag  = s.substr(b + 1);
				size = size_t(atoll(s.substr(a + 1, b - a - 1).c_str()));
				if (size > 100000)
					size = 100000;
			}
		}
		for (auto &p : peers)
			if (p.hostile && p.raw && p.raw->peer->reads > 1 && tag[0] == 'g')
				overlap = true;
		if (mode == "throw")
			throw std::runtime_error("thrown" + tag);
		if (mode == "auth")
			throw http::ErrorAuthorization("realm");
		if (mode == "ws") {
			bool thrower = tag == "x";
			who->web_socket_upgrade([this, who, thrower](http::WebMessage &&m) {
				progress();
				if (thrower)
					throw std::runtime_error("handler of messages throws");
				if (m.is_close())
					return;
				who->write(std::move(m));
			});
			return;
		}
		std::string body = pattern(size, tag + std::to_string(rq.body.size()));
		if (mode != "now" && mode != "late" && mode != "stream" && mode != "chunks") {
			http::Response r;
			r.header.status = 404;
			r.set_body("not found");
			return who->write(std::move(r));
		}
		if (mode == "now") {
			http::Response r;
			r.header.status = 200;
			r.set_body(std::move(body));
			return who->write(std::move(r));
		}
		jobs.emplace_back();
		Job *j  = &jobs.back();
		j->who  = who;
		j->body = body;
		if (mode == "late") {
			j->timer.reset(new Timer([this, j] {
				if (j->dead)
					return;
				j->finished = true;
				progress();
				http::Response r;
				r.header.status = 200;
				r.set_body(std::move(j->body));
				j->who->write(std::move(r));
			}));
			j->timer->once(0.01 + double(g.below(10)) * 0.05);
			who->postpone_response([this, j] {
				if (j->finished || j->dead)
					fail("told", "disconnect handler called twice or after the response");
				j->dead = true;
				j->timer->cancel();
			});
			return;
		}
		j->chunked = mode == "chunks";
		http::ResponseHeader h;
		h.status = 200;
		if (j->chunked)
			h.transfer_encoding_chunked = true;
		else
			h.content_length = body.size();
		who->start_write_stream(h, [this, j] { produce(j); });
	}
	void produce(Job *j) {
		if (j->finished)
			return;
		if (!j->who->is_open()) {
			if (j->dead)
				fail("told", "stream handler told of the disconnect twice");
			j->dead = true;
			return;
		}
		while (j->who->can_write()) {
			progress();
			size_t left = j->body.size() - j->pos;
			if (!left) {
				j->finished = true;
				if (j->chunked)
					j->who->write_last_chunk();
				return;
			}
			size_t n = std::min(left, j->body.size() / 50 + 1 + g.below(5000));
			j->pos += n;
			if (n == left && !j->chunked)
				j->finished = true;
			j->who->write(j->body.data() + j->pos - n, n);
			if (j->finished)
				return;
		}
	}
	// ---- library clients facing a hostile server
	void ask(Victim &v) {
		if (phase || !v.tries)
			return;
		--v.tries;
		progress();
		v.ws   = g.flag();
		v.open = true;
		v.end  = int(g.below(6));
		v.asked = v.got = 0;
		std::string head = v.ws ? "" : "HTTP/1.1 200 OK\r\n";
		if (v.ws)
			v.reply = "";  // depends on the key
		else {
			std::string body = g.blob(hn::body_size(g, 20000));
			if (g.flag())
				v.reply = head + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
			else {
				char h[20];
				snprintf(h, sizeof(h), "%zx\r\n", body.size());
				v.reply = head + "Transfer-Encoding: chunked\r\n\r\n" + (body.empty() ? "" : h + body + "\r\n") + "0\r\n\r\n";
			}
			v.reply = g.chance(1, 4) ? repeat(v.reply, 2) : mutate(v.reply);
			if (g.chance(1, 8))
				v.reply = head + repeat(g.of({"a: b\r\n", "x", "Set-Cookie: ", "\r\n"}), 1 + g.below(9000));
		}
		if (!v.cc->connect(Address("127.0.0.1", uint16_t(1000 + v.id))))
			fail("connect", "connect failed");
		if (v.ws) {
			http::RequestHeader h;
			h.path = "/ws";
			v.cc->web_socket_upgrade(h);
			for (size_t n = g.below(3); n--;)
				v.cc->write(http::WebMessage("hello"));
		} else {
			v.asked = 1;
			v.cc->write(http::Request("h", "GET", "/"));
		}
	}
	void on_victim(Victim &v) {
		if (!v.open)
			fail("told", "client told of the end twice");
		progress();
		if (!v.cc->is_open()) {
			v.open = false;
			v.again->once(0.05);
			return;
		}
		http::Response r;
		while (v.cc->is_open() && v.cc->read_next(r)) {
			if (++v.got > v.asked)
				fail("response", "client got more responses than it asked for");
			if (g.flag()) {
				++v.asked;
				v.cc->write(http::Request("h", "GET", "/2"));
			} else if (g.flag()) {
				v.cc->close();
				v.open = false;
				v.again->once(0.05);
			}
		}
		http::WebMessage m;
		while (v.cc->is_open() && v.cc->read_next(m))
			if (m.is_text() && !hn::utf8(m.body))
				fail("utf8", "client got text that is not UTF-8");
	}
	void drain(Victim &v) {
		if (!v.raw)
			return;
		if (!v.raw->rq.empty()) {
			std::string s = v.raw->take();
			size_t k      = s.find("Sec-WebSocket-Key: ");
			if (k == std::string::npos)
				k = hn::lower(s).find("sec-websocket-key: ");
			if (v.ws && k != std::string::npos && !v.replied) {
				v.reply = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + hn::ws_accept(s.substr(k + 19, 24)) + "\r\n\r\n";
				for (size_t n = 1 + g.below(6); n--;) {
					hn::Frame f = frame(int(1 + g.below(2)), g.blob(hn::body_size(g, 3000)), g.chance(1, 10));
					f.op        = g.chance(1, 3) ? int(g.below(16)) : f.op;
					f.fin       = !g.chance(1, 4);
					if (f.op > 7)
						f.data.resize(std::min<size_t>(f.data.size(), 130));
					v.reply += f.encode();
				}
				if (g.chance(1, 3))
					v.reply = mutate(v.reply);
			}
			if (!v.replied && !v.reply.empty()) {
				v.raw->send(v.reply);
				v.replied = true;
				switch (v.end) {
				case 1: v.raw->fin(); break;
				case 2: v.raw->rst(); break;
				case 3: v.raw->app_close(); break;
				default:;
				}
			}
		}
		if (v.raw->gone()) {
			v.raw->app_close();
			v.raw.reset();
		}
	}
	// ---- raw peers
	void leave(Peer &p, int how) {
		PBT_LOG(c, name(p) << " leaves " << how << "\n");
		p.ended = true;
		p.out.clear();
		p.raw->paused = false;
		p.reads       = true;
		switch (how) {
		case 1:
		case 5: p.raw->fin(); break;
		case 2: p.raw->rst(); break;
		case 3: p.raw->app_close(); break;
		default:
			p.raw->rst_errno = std::vector<int>{ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, EPIPE, ECONNABORTED, ENETDOWN}[g.below(6)];
			p.raw->rst();
		}
	}
	size_t todo(bool act, size_t i) {
		size_t n = 0;
		for (auto &p : peers) {
			auto option = [&](bool possible) {
				if (!possible)
					return false;
				return n++ == i && act;
			};
			if (option(!p.started && phase == 0)) {
				progress();
				p.started = true;
				p.raw     = w.connect_raw(80);
				if (p.small) {
					p.raw->sndbuf       = 100 + g.below(5000);
					p.raw->peer->sndbuf = (p.hostile ? 3000 : 100) + g.below(5000);
				}
				if (!p.reads)
					p.raw->paused = true;
				return 0;
			}
			if (!p.raw || p.raw->gone() || p.ended)
				continue;
			if (option(!p.out.empty())) {
				progress();
				size_t k = p.out.size();
				switch (p.trickle ? 1 : g.pick({4, 1, 2})) {
				case 0: break;
				case 1: k = 1 + g.below(std::min<size_t>(k, 10)); break;
				default: k = 1 + g.below(k);
				}
				if (p.sent + k > p.end_at)
					k = p.end_at - p.sent;
				p.raw->send(p.out.substr(0, k));
				p.out.erase(0, k);
				p.sent += k;
				if (p.sent == p.end_at)
					leave(p, 1 + int(g.below(4)));
				return 0;
			}
			if (option(p.hostile && p.out.empty() && p.end)) {
				leave(p, p.end);
				return 0;
			}
			if (p.hostile)
				continue;
			if (option(pauses && !p.raw->paused)) {
				p.raw->paused = true;
				--pauses;
				return 0;
			}
			if (option(p.raw->paused)) {
				p.raw->paused = false;
				return 0;
			}
		}
		return n;
	}
	void drain(Peer &p) {
		if (!p.raw)
			return;
		if (!p.raw->rq.empty())
			input(p, p.raw->take());
		if (p.raw->gone() && !p.done) {
			p.done = true;
			if (!p.hostile)
				fail("disturbed", name(p) + " was closed by the server");
			p.raw->app_close();
		}
	}
	void input(Peer &p, const std::string &bytes) {
		if (!p.parser.stop_after)
			p.parser.feed(bytes);
		else
			p.fp.feed(bytes);
		if (p.parser.stop_after && !p.parser.buf.empty()) {
			p.fp.feed(p.parser.buf);
			p.parser.buf.clear();
		}
		if (!p.parser.error.empty())
			fail("malformed", name(p) + " got a malformed response: " + p.parser.error);
		if (!p.fp.error.empty())
			fail("malformed", name(p) + " got a malformed frame: " + p.fp.error);
		for (; p.frames_seen != p.fp.out.size(); ++p.frames_seen) {
			auto &f = p.fp.out[p.frames_seen];
			if (f.rsv || f.masked || (f.op > 2 && f.op < 8) || f.op > 10 || (f.op > 7 && (!f.fin || f.data.size() > 125)))
				fail("malformed", name(p) + " got a frame that breaks the protocol");
			if (f.op == 1 && !hn::utf8(f.data))
				fail("malformed", name(p) + " got text that is not UTF-8");
			if (p.hostile || f.op == 9)
				continue;
			progress();
			if (p.echoed == p.echoes.size() || f.op != 2 || f.data != p.echoes[p.echoed++])
				fail("disturbed", name(p) + " got a wrong message");
		}
		if (p.hostile)
			return;
		for (; p.checked != p.parser.out.size(); ++p.checked) {
			progress();
			auto &m = p.parser.out[p.checked];
			if (p.ws && p.checked == p.plans.size() && m.status == 101)
				continue;
			if (p.checked >= p.plans.size())
				fail("disturbed", name(p) + " got a response nobody asked for");
			const std::string &want = p.plans[p.checked].want;
			if (m.body != want)
				fail("disturbed", name(p) + " got a wrong answer to request " + std::to_string(p.checked) + ": status " + std::to_string(m.status) + ", " + std::to_string(m.body.size()) + " bytes instead of " + std::to_string(want.size()));
		}
	}
	void served() {
		for (auto &p : peers)
			if (!p.hostile && (p.checked != p.plans.size() + p.ws || p.echoed != p.echoes.size()))
				fail("unserved", name(p) + " got " + std::to_string(p.checked) + " of " + std::to_string(p.plans.size() + p.ws) + " answers and " + std::to_string(p.echoed) + " of " + std::to_string(p.echoes.size()) + " messages");
	}
	void verdict() {
		for (auto &p : peers)
			if (p.hostile && p.raw && p.raw->peer && p.raw->peer->fd >= 0 && !p.raw->peer->orphan)
				fail("leak", name(p) + " is gone, but the server keeps its socket");
		for (auto &j : jobs)
			if (!j.finished && !j.dead)
				fail("leak", "the application was not told that a connection it was answering is gone");
		for (auto &v : victims)
			if (v.open)
				fail("leak", "library client was not told that its server is gone");
	}
};
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	std::cout.rdbuf(nullptr);
	sim::World w(g, c);
	w.max_waits = 60000;
	bool nt     = false;
	std::string sig, err;
	{
		Hist h(g, c, w);
		try {
			h.loop.run();
			h.verdict();
		} catch (const sim::Abort &) {
		}
		sig = h.error_sig, err = h.error;
		static const char *const en[] = {"stays", "FIN", "reset", "abandons", "error", "FIN"};
		for (auto &p : h.peers)
			if (p.hostile) {
				c.cls(en[p.end]);
				if (!p.reads)
					c.cls("does not read");
				if (p.parser.out.size() > 0)
					c.cls(p.parser.out.back().status == 101 ? "hostile WebSocket" : p.parser.out.back().status / 100 == 2 ? "hostile got 2xx" : "hostile got 4xx");
			}
		if (!h.victims.empty())
			c.cls("library client of a hostile server");
		if (w.accept_fault)
			c.cls("accept errors");
		if (w.eagain_sends)
			c.cls("socket buffer full");
		nt = h.overlap;
	}
	if (!err.empty())
		c.fail(sig, err);
	w.finish();
	if (nt)
		c.nontrivial();
}
