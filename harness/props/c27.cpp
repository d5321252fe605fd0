#include <iostream>
#include <list>
#include <crab/crab.hpp>
#include "../ref/http_net.hpp"
#include "../sim.hpp"
const char *const PROP_ID   = "C27";
const char *const PROP_RULE =
    "one raw peer (client of the library's server or of its connection object, or server of the library's client): a handshake with any key, correct or with one of 20 defects, then a legal frame sequence of any fragmentation into which a violation "
    "of one of 12 classes or a random bit flip is put at any frame, in any pieces, while the application answers messages; an independent decoder of the bytes sent says what has to be delivered and whether the connection has to end; "
    "non-trivial: a defective handshake, or a violation with at least one message before it, or a flipped bit";
using namespace crab;
using namespace pbt;
namespace {
enum { SRV, BARE, LIB };
struct Msg {
	int op;
	std::string body;
};
// what has to be delivered from these bytes
struct Oracle {
	std::vector<Msg> messages;
	bool closed   = false;  // CLOSE frame, nothing after it is judged
	bool violated = false, maybe = false, bad_utf8 = false;
	std::string why;
	Oracle(const std::string &s, bool must_mask) { decode(s, must_mask); }

private:
	void decode(const std::string &s, bool must_mask) {
		size_t i = 0;
		auto b   = [&](size_t k) { return static_cast<unsigned char>(s[k]); };
		int part = 0;
		std::string body;
		auto bad = [&](const char *w) { violated = true, why = w; };
		while (i != s.size()) {
			bool partial = part != 0;
			int op       = b(i) & 15;
			bool fin     = b(i) & 128;
			if (b(i) & 0x70)
				return bad("reserved bit");
			if ((op > 2 && op < 8) || op > 10)
				return bad("reserved opcode");
			bool order = (op == 0 && !partial) || ((op == 1 || op == 2) && partial);
			maybe      = order || (op > 7 && !fin);
			if (++i == s.size())
				return;
			bool masked = b(i) & 128;
			uint64_t n  = b(i) & 127;
			++i;
			if (op > 7 && (n > 125 || !fin))
				return bad("control frame");
			if (masked != must_mask)
				maybe = true;
			size_t ext = n == 126 ? 2 : n == 127 ? 8 : 0;
			if (s.size() - i < ext)
				return;
			if (ext) {
				n = 0;
				for (size_t k = 0; k != ext; ++k)
					n = n << 8 | b(i++);
				if (n < (ext == 2 ? 126u : 65536u) || n >> 63)
					return bad("length form");
			}
			uint32_t key = 0;
			if (masked) {
				if (s.size() - i < 4)
					return;
				for (int k = 0; k != 4; ++k)
					key = key << 8 | b(i++);
			}
			if (masked != must_mask)
				return bad("masking");
			if (s.size() - i < n) {
				if (op < 3) {  // text may be refused early
					maybe = true;
				}
				return;
			}
			if (order)
				return bad("fragment order");
			std::string d = s.substr(i, size_t(n));
			if (masked)
				for (size_t k = 0; k != d.size(); ++k)
					d[k] = char(d[k] ^ char(key >> (24 - 8 * (k % 4))));
			i += size_t(n);
			if (op == 8) {
				closed = true;
				return;
			}
			if (op > 8)
				continue;
			if (op)
				part = op, body.clear();
			body += d;
			if (!fin)
				continue;
			if (part == 1 && !hn::utf8(body)) {
				bad_utf8 = true;
				return bad("text is not UTF-8");
			}
			messages.push_back(Msg{part, body});
			part = 0;
		}
		if (part == 1)
			maybe = true;  // invalid text may be refused before its end
	}
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	int kind;
	bool done = false, bad_handshake = false, plain_request = false, flipped = false;
	std::string what;  // of the violation or defect
	// raw peer
	sim::EndP raw;
	std::string out, frames, sent, in, head_in, key;
	bool head_done = false, got_close_1007 = false, ended = false;
	hn::FrameParser fp;
	hn::MsgParser head;
	size_t seen = 0;
	int pauses = 3;
	size_t sent_frames_from = 0;
	// library
	std::unique_ptr<http::Server> srv;
	std::unique_ptr<TCPAcceptor> acceptor;
	std::unique_ptr<http::ServerConnection> bare;
	std::unique_ptr<http::ClientConnection> cc;
	std::unique_ptr<Timer> begin, late;
	http::Client *who = nullptr;
	std::vector<Msg> delivered;
	bool open = false, over = false, app_closed = false, close_delivered = false;
	int over_count = 0, echo = 0;
	int64_t progress_ns = 0;
	void fail(const std::string &sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	void progress() { progress_ns = w.now_ns; }
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_) {
		progress_ns = w.now_ns;
		kind        = int(g.below(3));
		echo        = int(g.below(3));
		w.actions   = [this]() { return done ? 0 : todo(false, 0); };
		w.do_action = [this](size_t i) { todo(true, i); };
		w.after_event = [this] { drain(); };
		w.on_quiet  = [this](int) {
			if (raw && raw->paused) {
				raw->paused = false;
				return true;
			}
			if (w.now_ns - progress_ns < 100 * 1000000000LL)
				return false;
			done = true;
			loop.cancel();
			return true;
		};
		bad_handshake = g.chance(1, 3);
		begin.reset(new Timer([this] { start(); }));
		late.reset(new Timer([this] { upgrade(); }));
		begin->once(0);
		if (kind == SRV) {
			srv.reset(new http::Server(Address("0.0.0.0", 80)));
			srv->r_handler = [this](http::Client *x, http::Request &&rq) { on_request(x, std::move(rq)); };
		}
		if (kind == BARE) {
			bare.reset(new http::ServerConnection([this] { on_bare(); }));
			acceptor.reset(new TCPAcceptor(Address("0.0.0.0", 80), [this] {
				if (!bare->is_open() && acceptor->can_accept())
					bare->accept(*acceptor);
			}));
		}
		if (kind == LIB) {
			cc.reset(new http::ClientConnection([this] { on_client(); }));
			w.on_connect = [this](const sockaddr_storage &, sim::EndP peer) {
				raw       = peer;
				peer->raw = true, peer->nonblock = true;
				return 0;
			};
		}
		make_frames();
	}
	// ---- generation
	std::string spelled(std::string s) {
		switch (g.below(3)) {
		case 0: return s;
		case 1: return hn::lower(s);
		default:
			for (auto &x : s)
				x = char(toupper(x));
			return s;
		}
	}
	hn::Frame frame(int op, const std::string &d) {
		hn::Frame f;
		f.op     = op;
		f.data   = d;
		f.masked = kind != LIB;
		f.key    = g.chance(1, 8) ? 0 : uint32_t(g.below(0xFFFFFFFFu));
		return f;
	}
	void make_frames() {
		std::vector<hn::Frame> fs;
		int part = 0;
		std::string text, sofar;  // text still to be sent
		size_t n = 1 + g.below(8);
		for (size_t i = 0; i < n || part; ++i) {
			if (g.chance(1, 4)) {
				fs.push_back(frame(g.flag() ? 9 : 10, g.blob(g.below(g.chance(1, 4) ? 126 : 8))));
				continue;
			}
			hn::Frame f = frame(0, "");
			if (!part) {
				part = g.flag() ? 1 : 2;
				f.op = part;
				size_t z = hn::body_size(g, 70000);
				text     = part == 1 ? hn::text(g, z) : g.blob(z);
			}
			size_t k = i >= n || g.flag() ? text.size() : g.below(text.size() + 1);
			f.data   = text.substr(0, k);
			text.erase(0, k);
			f.fin = text.empty() && (i >= n || g.chance(2, 3));
			if (f.fin)
				part = 0;
			fs.push_back(f);
		}
		if (g.chance(1, 8))
			fs.push_back(frame(8, g.flag() ? std::string() : std::string("\x03\xe8") + "bye"));
		size_t at    = g.below(fs.size() + 1);
		size_t where = SIZE_MAX, cut = SIZE_MAX;
		if (g.chance(4, 5)) {
			hn::Frame v = frame(int(1 + g.below(2)), g.flag() ? "evil" : "");
			std::string raw_bytes;
			switch (g.below(12)) {
			case 0: what = "masking", v.masked = !v.masked; if (g.flag()) v.op = 9; break;
			case 1: what = "reserved bit", v.rsv = 1 << g.below(3); if (g.flag()) v.op = 9; break;
			case 2: what = "reserved opcode", v.op = std::vector<int>{3, 4, 5, 6, 7, 11, 12, 13, 14, 15}[g.below(10)]; break;
			case 3: what = "continuation", v.op = 0; v.fin = g.flag(); break;
			case 4: what = "message in message", v.fin = g.flag(); break;
			case 5: what = "long control frame", v.op = int(8 + g.below(3)), v.data = g.blob(126 + g.below(g.flag() ? 1 : 400)); break;
			case 6: what = "long control frame", v.op = int(8 + g.below(3)), v.data = g.blob(g.below(126)), v.len_form = 1 + int(g.below(2)); break;
			case 7: what = "fragmented control frame", v.op = int(8 + g.below(3)), v.fin = false; break;
			case 8: what = "length form", v.data = g.blob(g.flag() ? 125 : g.below(126)), v.len_form = 1 + int(g.below(2)), v.op = 2; break;
			case 9: what = "length form", v.data = g.blob(g.chance(1, 4) ? 65535 : 126 + g.below(1000)), v.len_form = 2, v.op = 2; break;
			case 10: what = "length form", v.forced_len = 0x8000000000000000ULL | g.below(100), v.op = 2; break;
			default:
				what   = "invalid text";
				v.op   = 1;
				v.data = hn::text(g, g.below(40));
				v.data.insert(g.below(v.data.size() + 1), g.of({"\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\x80", "\xf8\x88\x80\x80\x80", "\xc3"}));
				if (g.flag()) {  // in pieces
					hn::Frame f = v;
					size_t k    = g.below(v.data.size() + 1);
					f.fin       = false;
					f.data      = v.data.substr(0, k);
					v.op        = 0;
					v.data.erase(0, k);
					fs.insert(fs.begin() + std::ptrdiff_t(at++), f);
				}
			}
			// where it is legal in itself it has to be put at another place
			if (what == "continuation" || what == "message in message" || what == "invalid text") {
				std::vector<size_t> places;
				bool open_part = false;
				for (size_t i = 0; i <= fs.size(); ++i) {
					if ((what == "message in message") == open_part)
						places.push_back(i);
					if (i < fs.size() && fs[i].op < 3)
						open_part = !fs[i].fin;
				}
				if (what != "invalid text" || v.op == 1) {
					if (!places.empty())
						at = places[g.below(places.size())];
				}
			}
			fs.insert(fs.begin() + std::ptrdiff_t(std::min(at, fs.size())), v);
		}
		for (auto &f : fs) {
			if (c.verbose)
				PBT_LOG(c, "frame op " << f.op << (f.fin ? " fin " : " part ") << f.data.size() << (f.masked ? " masked" : "") << " rsv " << f.rsv << " form " << f.len_form << "\n");
			frames += f.encode();
		}
		if (g.chance(1, 4) && !frames.empty()) {
			flipped = true;
			// mostly in a frame head
			where = g.below(frames.size());
			if (g.chance(3, 4)) {
				size_t o = 0, k = g.below(fs.size());
				for (size_t i = 0; i != k; ++i)
					o += fs[i].encode().size();
				where = std::min(frames.size() - 1, o + g.below(10));
			}
			frames[where] = char(frames[where] ^ (1 << g.below(8)));
			PBT_LOG(c, "flip at " << where << "\n");
		}
		if (g.chance(1, 10)) {
			cut = g.below(frames.size() + 1);
			frames.resize(cut);
		}
		PBT_LOG(c, "kind " << kind << " violation " << what << (bad_handshake ? " after bad handshake" : "") << "\n");
	}
	// ---- beginning
	void start() {
		progress();
		if (kind == LIB) {
			if (!cc->connect(Address("127.0.0.1", 80)))
				fail("connect", "connect failed");
			plain_request = bad_handshake && g.chance(1, 8);
			if (plain_request) {
				what = "upgrade not asked for";
				cc->write(http::Request("h", "GET", "/ws"));
			} else {
				http::RequestHeader h;
				h.path = "/ws";
				cc->web_socket_upgrade(h);
			}
			return;
		}
		key = g.chance(3, 4) ? hn::base64(g.blob(16)) : hn::base64(g.blob(1 + g.below(60)));
		std::string method = "GET", version = "HTTP/1.1", body;
		std::vector<std::pair<std::string, std::string>> hs{{"Host", "h"}, {"Upgrade", spelled("websocket")}, {"Connection", spelled("Upgrade")}, {"Sec-WebSocket-Key", key}, {"Sec-WebSocket-Version", "13"}};
		if (g.chance(1, 3))
			hs[2].second = "keep-alive, Upgrade";
		if (bad_handshake)
			switch (g.below(10)) {
			case 0: what = "method", method = g.of({"POST", "HEAD", "OPTIONS", "GETT", "get"}), hs.push_back({"Content-Length", "0"}); break;
			case 1: what = "HTTP/1.0", version = "HTTP/1.0"; break;
			case 2: what = "no Upgrade", hs.erase(hs.begin() + 1); break;
			case 3: what = "other Upgrade", hs[1].second = g.of({"h2c", "websockets", "web", "TLS/1.0"}); break;
			case 4: what = "no Connection", hs.erase(hs.begin() + 2); break;
			case 5: what = "other Connection", hs[2].second = g.of({"keep-alive", "close"}); break;
			case 6: what = "no key", hs.erase(hs.begin() + 3); break;
			case 7: what = "empty key", hs[3].second = ""; break;
			case 8: what = "no version", hs.erase(hs.begin() + 4); break;
			default: what = "other version", hs[4].second = g.of({"12", "8", "1", "130", "14", "013", "x", "13x"}); break;
			}
		for (size_t i = hs.size(); i > 1; --i)
			std::swap(hs[i - 1], hs[g.below(i)]);
		out = method + " /ws " + version + "\r\n";
		for (auto &h : hs)
			out += (g.flag() ? h.first : spelled(h.first)) + ":" + g.of({" ", "", "  "}) + h.second + g.of({"", " "}) + "\r\n";
		out += "\r\n";
		PBT_LOG(c, out << "\n");
		raw = w.connect_raw(80);
		raw->sndbuf = 100 + g.below(5000);
		if (g.flag())
			raw->peer->sndbuf = 100 + g.below(5000);
		if (!bad_handshake && g.flag())
			out += frames, sent = frames, frames.clear();
	}
	// ---- application
	void on_message(http::WebMessage &&m) {
		progress();
		PBT_LOG(c, "delivered op " << int(m.opcode) << " " << m.body.size() << "\n");
		if (!open)
			fail("handshake", "message delivered without a handshake");
		if (close_delivered)
			return;
		if (m.is_close()) {
			close_delivered = true;
			return;
		}
		delivered.push_back(Msg{int(m.opcode), m.body});
		Oracle o(sent, kind != LIB);
		size_t k = delivered.size();
		if (o.messages.size() < k)
			fail("delivered", "message " + std::to_string(k) + " (" + std::to_string(m.body.size()) + " bytes) delivered" + (o.violated ? " though the peer broke the protocol: " + o.why : " though it was not sent"));
		if (o.messages[k - 1].op != int(m.opcode) || o.messages[k - 1].body != m.body)
			fail("delivered", "message " + std::to_string(k) + " differs from the one sent");
		if (echo == 1 || (echo == 2 && g.flag())) {
			http::WebMessage r(http::WebMessageOpcode::BINARY, std::string(hn::body_size(g, 20000), 'r'));
			PBT_LOG(c, "answers " << r.body.size() << "\n");
			if (kind == SRV)
				who->write(std::move(r));
			else if (kind == BARE)
				bare->write(std::move(r));
			else
				cc->write(std::move(r));
		}
	}
	void upgrade() {
		if (over)
			return;
		progress();
		open = true;
		if (kind == SRV)
			who->web_socket_upgrade([this](http::WebMessage &&m) {
				if (over)
					fail("told", "handler called after CLOSE");
				if (m.is_close())
					over = true;
				on_message(std::move(m));
			});
		else
			bare->web_socket_upgrade();
	}
	http::Response refusal() { return http::Response::simple_text(400, "no"); }
	void on_request(http::Client *x, http::Request &&rq) {
		progress();
		who = x;
		if (bad_handshake) {
			if (rq.header.is_websocket_upgrade())
				fail("handshake", "defective handshake accepted: " + what);
			if (g.flag())
				return x->write(refusal());
			x->web_socket_upgrade([this](http::WebMessage &&) { fail("handshake", "WebSocket handler called after a defective handshake: " + what); });
			fail("handshake", "upgrade of a defective handshake did not throw: " + what);
		}
		if (!rq.header.is_websocket_upgrade())
			fail("handshake", "handshake refused");
		if (g.flag())
			return upgrade();
		x->postpone_response([this] { over = true; });
		late->once(0.05);
	}
	void on_bare() {
		if (!bare->is_open()) {
			over = true;
			return;
		}
		while (bare->is_open()) {
			http::Request rq;
			http::WebMessage m;
			if (bare->read_next(m)) {
				on_message(std::move(m));
				if (close_delivered && g.flag()) {
					bare->close();
					over = true;
					return;
				}
			} else if (bare->read_next(rq)) {
				progress();
				if (bad_handshake) {
					if (rq.header.is_websocket_upgrade())
						fail("handshake", "defective handshake accepted: " + what);
					if (g.flag()) {
						bool thrown = false;
						try {
							bare->web_socket_upgrade();
						} catch (const std::exception &) {
							thrown = true;
						}
						if (!thrown)
							fail("handshake", "upgrade of a defective handshake did not throw: " + what);
					}
					bare->write(refusal());
					continue;
				}
				if (!rq.header.is_websocket_upgrade())
					fail("handshake", "handshake refused");
				if (g.flag())
					upgrade();
				else
					late->once(0.05);
			} else
				return;
		}
	}
	void on_client() {
		if (over)
			fail("told", "client handler called after close");
		if (!cc->is_open()) {
			over = true;
			return;
		}
		http::Response r;
		if (cc->read_next(r))
			fail("handshake", "a response delivered instead of the handshake");
		http::WebMessage m;
		while (cc->is_open() && cc->read_next(m)) {
			if (bad_handshake)
				fail("handshake", "message delivered after a defective handshake: " + what);
			open = true;
			on_message(std::move(m));
			if (close_delivered && g.flag()) {
				cc->close();
				over = true;
			}
		}
	}
	// ---- raw peer
	size_t todo(bool act, size_t i) {
		size_t n = 0;
		if (!raw || raw->gone())
			return 0;
		auto option = [&](bool possible) {
			if (!possible)
				return false;
			return n++ == i && act;
		};
		if (option(!out.empty())) {
			size_t k = out.size();
			switch (g.pick({4, 2, 2})) {
			case 0: break;
			case 1: k = 1 + g.below(std::min<size_t>(k, 30)); break;
			default: k = 1 + g.below(k);
			}
			raw->send(out.substr(0, k));
			out.erase(0, k);
			return 0;
		}
		if (option(pauses && !raw->paused)) {
			raw->paused = true;
			--pauses;
			return 0;
		}
		if (option(raw->paused)) {
			raw->paused = false;
			return 0;
		}
		return n;
	}
	void drain() {
		if (!raw)
			return;
		if (!raw->rq.empty())
			input(raw->take());
		if (raw->gone() && !ended) {
			progress();
			ended = true;
			PBT_LOG(c, "peer sees the end\n");
			raw->app_close();
		}
	}
	void input(const std::string &bytes) {
		if (!head_done) {
			if (kind == LIB) {
				head_in += bytes;
				size_t e = head_in.find("\r\n\r\n");
				if (e == std::string::npos)
					return;
				head.request = true;
				head.feed(head_in);
				if (!head.error.empty() || head.out.empty())
					fail("handshake", head.error);
				head_done = true;
				respond(head.out.back());
				return;
			}
			head.feed(bytes);
			if (!head.error.empty())
				fail("handshake", head.error);
			if (head.out.empty())
				return;
			auto &m = head.out.back();
			if (bad_handshake) {
				if (m.status == 101)
					fail("handshake", "101 in response to a defective handshake: " + what);
				return;
			}
			auto a = m.find("sec-websocket-accept"), u = m.find("upgrade"), k = m.find("connection");
			if (m.status != 101)
				fail("handshake", "handshake refused, status " + std::to_string(m.status));
			if (!a || *a != hn::ws_accept(key))
				fail("handshake", "wrong Sec-WebSocket-Accept " + (a ? *a : std::string("missing")) + " for key " + key);
			if (!u || hn::lower(*u) != "websocket" || !k || hn::lower(*k).find("upgrade") == std::string::npos)
				fail("handshake", "upgrade headers missing");
			head_done = true;
			out += frames, sent += frames, frames.clear();
			fp.feed(head.buf);
		} else
			fp.feed(bytes);
		if (!fp.error.empty())
			fail("frame", fp.error);
		while (seen != fp.out.size()) {
			auto &f = fp.out[seen++];
			if (f.op == 8)
				got_close_1007 = f.data.size() >= 2 && f.data[0] == char(1007 >> 8) && f.data[1] == char(1007 & 255);
		}
	}
	void respond(const hn::Msg &rq) {
		auto k          = rq.find("sec-websocket-key");
		std::string acc = hn::ws_accept(k ? *k : "");
		std::string start = "HTTP/1.1 101 Switching Protocols";
		if (!plain_request && (!k || k->size() != 24))
			fail("handshake", "client sent a bad key");
		std::vector<std::pair<std::string, std::string>> hs{{"Upgrade", spelled("websocket")}, {"Connection", spelled("Upgrade")}, {"Sec-WebSocket-Accept", acc}};
		if (bad_handshake && !plain_request)
			switch (g.below(9)) {
			case 0: what = "status", start = g.of({"HTTP/1.1 200 OK", "HTTP/1.1 400 Bad", "HTTP/1.1 426 Upgrade Required", "HTTP/1.1 500 No", "HTTP/1.1 100 Continue", "HTTP/1.1 102 X", "HTTP/1.1 201 X"}); if (g.flag()) hs.push_back({"Content-Length", "0"}); break;
			case 1: what = "no Upgrade", hs.erase(hs.begin()); break;
			case 2: what = "other Upgrade", hs[0].second = g.of({"h2c", "websockets", "TLS/1.0"}); break;
			case 3: what = "no Connection", hs.erase(hs.begin() + 1); break;
			case 4: what = "other Connection", hs[1].second = g.of({"keep-alive", "close"}); break;
			case 5: what = "no accept", hs.erase(hs.begin() + 2); break;
			case 6: {
				what   = "wrong accept";
				auto &a = hs[2].second;
				switch (g.below(6)) {
				case 0: a = *k; break;
				case 1: a = hn::base64(g.blob(20)); break;
				case 2: a[g.below(27)] ^= 1; break;
				case 3: a.pop_back(); break;
				case 4: a += "="; break;
				default: {
					auto old = a;
					for (auto &x : a)
						x = char(isupper(x) ? tolower(x) : toupper(x));
				}
				}
				break;
			}
			case 7: what = "with length", hs.push_back({"Content-Length", g.of({"0", "4"})}); break;
			default: what = "with chunks", hs.push_back({"Transfer-Encoding", "chunked"});
			}
		if (bad_handshake && what == "wrong accept" && hs[2].second == acc)
			bad_handshake = false;
		for (size_t i = hs.size(); i > 1; --i)
			std::swap(hs[i - 1], hs[g.below(i)]);
		out = start + "\r\n";
		for (auto &h : hs)
			out += (g.flag() ? h.first : spelled(h.first)) + ":" + g.of({" ", "", "  "}) + h.second + g.of({"", " "}) + "\r\n";
		out += "\r\n" + frames;
		sent = frames;
		PBT_LOG(c, "response with defect: " << what << "\n");
	}
	void verdict() {
		if (bad_handshake) {
			if (open)
				fail("handshake", "defective handshake led to an open WebSocket: " + what);
			if (kind == LIB && !(ended && over))
				fail("handshake", "connection lives on after a defective handshake: " + what);
			if (kind != LIB && !ended && (head.out.empty() || head.out.back().status / 100 != 4))
				fail("handshake", "no answer to a defective handshake: " + what);
			return;
		}
		Oracle o(sent, kind != LIB);
		if (kind != LIB && !head_done && !(o.closed && over))
			fail("handshake", "no answer to a correct handshake");
		bool app_left = o.closed && over;
		if (delivered.size() < o.messages.size() && !app_left)
			fail("missing", std::to_string(o.messages.size() - delivered.size()) + " messages sent before " + (o.violated ? "the violation (" + o.why + ")" : "the end") + " were not delivered");
		if (o.violated) {
			if (!ended)
				fail("not-closed", "connection lives on after a violation: " + o.why);
			if (!over)
				fail("not-told", "application does not learn of the end after a violation: " + o.why);
			if (o.bad_utf8 && !got_close_1007 && !raw->dead)
				fail("utf8", "connection ended without CLOSE 1007 after text that is not UTF-8");
		} else if (!o.maybe && !o.closed && (ended || over))
			fail("lost", "connection ended though the peer kept to the protocol");
	}
};
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	std::cout.rdbuf(nullptr);
	sim::World w(g, c);
	bool nt = false;
	std::string sig, err;
	{
		Hist h(g, c, w);
		try {
			h.loop.run();
			h.verdict();
		} catch (const sim::Abort &) {
		}
		sig = h.error_sig, err = h.error;
		static const char *const kn[] = {"server", "connection object", "client"};
		c.cls(kn[h.kind]);
		if (h.bad_handshake) {
			c.cls(("handshake: " + h.what).c_str());
			nt = true;
		} else {
			Oracle o(h.sent, h.kind != LIB);
			c.cls(o.violated ? ("violation: " + o.why).c_str() : o.closed ? "CLOSE" : "no violation");
			if (h.flipped)
				c.cls("bit flipped");
			nt = h.flipped || (o.violated && !o.messages.empty());
		}
	}
	if (!err.empty())
		c.fail(sig, err);
	w.finish();
	if (nt)
		c.nontrivial();
}
