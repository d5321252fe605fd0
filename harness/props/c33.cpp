// C33: a TLS client exchanges application data only with the server it names. Built with CRAB_TLS; the server side is OpenSSL, certificates are made here.
#include <crab/crab.hpp>
#include <list>
#include "../ref/tls_peer.hpp"
#include "../sim.hpp"
const char *const PROP_ID   = "C33";
const char *const PROP_RULE =
    "1-2 clients (request objects and connections) make 1-3 https (some http) requests to names and addresses; each connection they open meets a server with a right certificate (5 forms) or a wrong one (self-signed, unknown or same-named authority, "
    "expired, not yet valid, other host or address, incomplete chain, issued by a leaf, broken signature, not for servers, none) or no TLS at all, possibly behind somebody who flips, drops, repeats or inserts bytes of the stream; servers "
    "answer and then stay, send close_notify, FIN, both or a reset; non-trivial: a wrong server or a changed stream was met, or at least two exchanges were completed";
using namespace crab;
using namespace pbt;
namespace {
struct Exch {
	int id = 0, client = 0;
	std::string host, secret, body, rbody;
	uint16_t port = 443;
	bool plain = false;  // http
	bool keep = true, by_uri = false, started = false, done = false, reached = false, answered = false;
	int end = 0;  // what the server does after the answer: 0 stays, 1 close_notify and FIN, 2 FIN, 3 close_notify, 4 reset
	double think = 0;
};
struct Peer {
	int kind = 0, id = 0, client = 0;
	sim::EndP raw;
	std::unique_ptr<tls::Server> srv;
	std::string seen;             // raw bytes of the client
	std::string pending;          // application data to be sent
	size_t parsed = 0, flown = 0;  // flown: raw bytes towards the client so far
	int tamper = 0;               // 0 no, 1 flip, 2 drop, 3 repeat, 4 insert, 5 drop everything after
	size_t tamper_at = 0;
	bool legit_plain = false;  // server of http
	bool right = false, tampered = false, ended = false, released = false, plain_sent = false, replied = false;
	int end = 0;
	std::vector<std::string> expect;  // secrets that may be seen by this server
};
struct Cl {
	int id = 0;
	std::unique_ptr<http::ClientRequestSimple> rs;
	std::unique_ptr<http::ClientConnection> cc;
	std::vector<Exch *> plan;
	size_t cur = 0;
	bool waiting = false, was_open = false;
	std::unique_ptr<Timer> think;
	Peer *peer = nullptr;  // of the last connection opened
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	std::list<Exch> exchs;
	std::list<Peer> peers;
	std::list<Cl> clients;
	size_t completed = 0, wrong = 0, changed = 0;
	void fail(const std::string &sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	std::string name(const Exch &e) { return "client " + std::to_string(e.client) + " exchange " + std::to_string(e.id); }
	std::string name(const Peer &p) { return "server " + std::to_string(p.id) + " (" + tls::kind_name(p.kind) + ")"; }
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_) {
		w.max_step_ns = g.flag() ? 0 : 100000000LL;
		w.dns_answer  = [this](const std::string &host, int, std::vector<std::string> &ips) {
			ips.push_back(host[0] == 'h' ? "10.9.0.1" : host);
			return 0;
		};
		w.on_connect = [this](const sockaddr_storage &a, sim::EndP raw) {
			connected(sim::port_of(a), raw);
			return 0;
		};
		w.after_event = [this] {
			for (auto &p : peers)
				pump(p);
		};
		size_t n = 1 + g.below(2);
		for (size_t i = 0; i != n; ++i) {
			clients.emplace_back();
			Cl &k = clients.back();
			k.id  = int(i);
			if (g.flag())
				k.rs.reset(new http::ClientRequestSimple([this, &k](http::Response &&r) { on_response(k, std::move(r)); }, [this, &k](std::string &&) { on_lost(k); }));
			else
				k.cc.reset(new http::ClientConnection([this, &k] { on_connection(k); }));
			k.think.reset(new Timer([this, &k] { step(k); }));
			for (size_t m = 1 + g.below(3); m--;) {
				exchs.emplace_back();
				Exch &e  = exchs.back();
				e.id     = int(exchs.size());
				e.client = k.id;
				e.host   = g.of({"h0.example.org", "h0.example.org", "h1.example.org", "10.1.2.3"});
				e.port   = uint16_t(443 + k.id);
				e.secret = "secret" + std::to_string(e.id) + "x" + std::to_string(100000 + g.below(900000));
				if (g.flag())
					e.body = g.blob(1 + g.len(40000));
				e.rbody  = g.blob(g.len(g.flag() ? 100 : 120000));
				e.plain  = g.chance(1, 5);
				e.keep   = !g.chance(1, 3);
				e.by_uri = k.rs && g.flag();
				e.end    = e.keep ? int(g.pick({4, 1, 1, 1, 1})) : int(g.pick({1, 3, 3, 1}));
				e.think  = g.flag() ? 0 : double(g.below(6)) * 0.1;
				k.plan.push_back(&e);
			}
			k.think->once(0);
		}
		w.on_quiet = [this](int) {
			if (!w.quiet_for(200))
				return false;
			bool waiting = false, more = false;
			for (auto &k : clients)
				waiting |= k.waiting, more |= k.cur != k.plan.size();
			if (waiting) {  // whoever waits for a server that was tampered with or that is silent is released by the end of the connection
				judge();
				for (auto &p : peers)
					if (p.raw && !p.raw->gone() && !p.raw->wshut && !p.raw->orphan) {
						p.raw->fin();
						p.ended = p.released = true;
					}
				w.last_activity_ns = w.now_ns;
				return true;
			}
			if (more)
				return false;  // somebody thinks
			loop.cancel();
			return true;
		};
	}
	// ---- servers
	void connected(int port, sim::EndP raw) {
		peers.emplace_back();
		Peer &p  = peers.back();
		p.id     = int(peers.size());
		p.raw    = raw;
		raw->raw = raw->nonblock = true;
		p.client = port - 443;
		Cl *k    = nullptr;
		for (auto &x : clients)
			if (x.id == p.client)
				k = &x;
		if (!k || k->cur == k->plan.size())
			fail("unasked", "a connection was opened though nothing was asked");
		k->peer       = &p;
		const Exch &e = *k->plan[k->cur];
		bool ip       = e.host[0] != 'h';
		if (g.chance(3, 5))
			p.kind = ip ? int(tls::GOOD_IP) : int(g.of(std::vector<int>{tls::GOOD, tls::GOOD_CHAIN, tls::GOOD_WILDCARD, tls::GOOD_TLS12}));
		else
			do
				p.kind = int(tls::SELF_SIGNED + g.below(tls::KINDS - tls::SELF_SIGNED));
			while (ip && p.kind == tls::WILDCARD_TOO_DEEP);
		if (g.chance(1, 12))  // a right certificate, for the other form of name
			p.kind = ip ? int(tls::GOOD) : int(tls::GOOD_IP);
		if (e.plain) {
			p.kind        = tls::PLAIN;
			p.legit_plain = true;
			c.cls("http");
		}
		if (p.kind != tls::PLAIN)
			p.srv.reset(new tls::Server(p.kind));
		if (!e.plain && g.chance(1, 4)) {
			p.tamper    = 1 + int(g.below(5));
			p.tamper_at = g.pick({1, 2}) == 0 ? g.below(10) : g.below(8000);
		}
		p.end = e.end;
		p.right = right(p, e);
		if (!p.right)
			++wrong;
		if (!e.plain)
			c.cls(tls::kind_name(p.kind));
		PBT_LOG(c, "connection of client " << p.client << " meets " << name(p) << (p.tamper ? ", tampered " + std::to_string(p.tamper) + " at " + std::to_string(p.tamper_at) : "") << "\n");
	}
	bool right(const Peer &p, const Exch &e) { return e.plain ? p.legit_plain : tls::good(p.kind) && (e.host[0] != 'h') == (p.kind == tls::GOOD_IP); }
	void to_client(Peer &p, std::string d) {
		if (d.empty() || p.ended)
			return;
		if (p.tamper && p.tamper_at >= p.flown && p.tamper_at < p.flown + d.size()) {
			size_t at = p.tamper_at - p.flown;
			p.flown += d.size();
			switch (p.tamper) {
			case 1: d[at] = char(d[at] ^ (1 << g.below(8))); break;
			case 2: d.erase(at, 1 + g.below(30)); break;
			case 3: d.insert(at, d.substr(at, 1 + g.below(300))); break;
			case 4: d.insert(at, g.blob(1 + g.below(30))); break;
			default: d.resize(at);
			}
			if (!p.tampered)
				++changed;
			p.tampered = true;
		} else
			p.flown += d.size();
		if (p.tampered && p.tamper == 5 && p.flown > p.tamper_at + d.size() + 1 && p.plain_sent)
			return;
		p.raw->send(d);
	}
	std::string response(Exch &e) { return "HTTP/1.1 200 OK\r\nX-Id: " + std::to_string(e.id) + "\r\nContent-Length: " + std::to_string(e.rbody.size()) + (e.keep ? "" : "\r\nConnection: close") + "\r\n\r\n" + e.rbody; }
	void pump(Peer &p) {
		std::string d = p.raw->take();
		p.seen += d;
		if (p.ended)
			return;
		if (p.kind == tls::PLAIN && !p.legit_plain) {
			if (!p.plain_sent && (!d.empty() || g.chance(1, 20))) {
				p.plain_sent = true;
				Cl *k        = client(p.client);
				if (k->cur != k->plan.size())
					to_client(p, response(*k->plan[k->cur]));
			}
			return;
		}
		if (!d.empty() && p.srv)
			p.srv->feed(d);
		while (true) {  // requests
			std::string &got = p.srv ? p.srv->got : p.seen;
			size_t h         = got.find("\r\n\r\n", p.parsed);
			if (h == std::string::npos)
				break;
			size_t cl = got.find("content-length: ", p.parsed), len = 0;
			if (cl != std::string::npos && cl < h)
				len = size_t(atol(got.c_str() + cl + 16));
			if (got.size() < h + 4 + len)
				break;
			std::string head = got.substr(p.parsed, h - p.parsed), body = got.substr(h + 4, len);
			p.parsed = h + 4 + len;
			Exch *e  = nullptr;
			for (auto &x : exchs)
				if (head.find(x.secret) != std::string::npos)
					e = &x;
			if (e && e->plain != p.legit_plain)
				fail("protocol", name(*e) + (e->plain ? " over http" : " over https") + " was sent to " + name(p));
			if (!e || !e->started)
				fail("unknown-request", name(p) + " got a request that was never sent");
			if (e->reached)
				fail("twice", name(*e) + " was sent twice");
			e->reached = true;
			if (e->host[0] == 'h' && p.srv && p.srv->asked() != e->host)
				fail("sni", name(*e) + ": the server was not told the name " + e->host + ", but '" + p.srv->asked() + "'");
			if (body != e->body)
				fail("request-body", name(*e) + ": the body received differs from the one sent");
			e->answered = true;
			p.pending += response(*e);
			p.end = e->end;
		}
		if (!p.srv && !p.pending.empty()) {
			to_client(p, p.pending);
			p.pending.clear();
			p.replied = true;
		}
		if (!p.pending.empty()) {
			size_t n = p.srv->write(p.pending);
			while (n && !(p.pending.erase(0, n), p.pending.empty()))
				n = p.srv->write(p.pending);
			p.replied = p.pending.empty();
			if (p.replied && g.chance(1, 5))
				p.srv->key_update(g.flag());
		}
		if (p.srv)
			to_client(p, p.srv->take());
		if (p.replied && !p.ended) {
			if (p.srv && (p.end == 1 || p.end == 3)) {
				p.srv->close_notify();
				to_client(p, p.srv->take());
			}
			if (p.end == 1 || p.end == 2)
				p.raw->fin();
			if (p.end == 4)
				p.raw->rst();
			p.ended   = p.end != 0 && (p.srv || p.end != 3);
			p.replied = false;
		}
		for (auto &k : clients)  // nothing is sent to a server which is not the one that was meant
			if (k.id == p.client)
				for (auto &e : exchs)
					if (e.client == k.id && !e.plain && p.seen.find(e.secret) != std::string::npos)
						fail("plaintext", name(p) + " could read the request on the wire");
		if (!p.right && p.srv && !p.srv->got.empty())
			fail("wrong-server", name(p) + " received application data: " + std::to_string(p.srv->got.size()) + " bytes");
	}
	Cl *client(int id) {
		for (auto &k : clients)
			if (k.id == id)
				return &k;
		return nullptr;
	}
	// ---- clients
	void step(Cl &k) {
		if (k.waiting || k.cur == k.plan.size())
			return;
		Exch &e   = *k.plan[k.cur];
		e.started = true;
		k.waiting = true;
		http::Request rq(e.host, e.body.empty() ? "GET" : "POST", "/" + e.secret);
		if (!e.body.empty())
			rq.set_body(std::string(e.body));
		PBT_LOG(c, name(e) << (e.plain ? " by http to " : " to ") << e.host << " " << e.secret << " body " << e.body.size() << " answer " << e.rbody.size() << (e.keep ? "" : " close") << " end " << e.end << "\n");
		if (k.rs) {
			if (e.by_uri)
				k.rs->send((e.plain ? "http://" : "https://") + e.host + ":" + std::to_string(e.port) + "/" + e.secret, std::move(rq));
			else
				k.rs->send(std::move(rq), e.port, e.plain ? "http" : "https");
		} else {
			if (k.cc->is_open() && (k.cc->get_host() != e.host || k.cc->get_protocol() != (e.plain ? "http" : "https")))
				k.cc->close();
			if (!k.cc->is_open())
				k.cc->connect(e.host, e.port, e.plain ? "http" : "https");
			k.cc->write(std::move(rq));
		}
	}
	void on_connection(Cl &k) {
		if (!k.cc->is_open())
			return on_lost(k);
		http::Response r;
		if (!k.cc->read_next(r))
			return;
		if (!r.header.keep_alive)
			k.cc->close();
		on_response(k, std::move(r));
	}
	void next(Cl &k) {
		Exch &e   = *k.plan[k.cur];
		e.done    = true;
		k.waiting = false;
		++k.cur;
		k.think->once(e.think);
	}
	void on_lost(Cl &k) {
		if (!k.waiting)
			return;
		Exch &e = *k.plan[k.cur];
		PBT_LOG(c, name(e) << " lost\n");
		if (!k.peer)
			fail("lost", name(e) + ": lost though no connection was tried");
		Peer &p = *k.peer;
		// the answer may be lost only if the server is wrong, the stream was changed, or the server ended the connection before the request
		if (right(p, e) && !p.tampered && !p.ended)
			fail("refused", name(e) + ": connection to the right " + name(p) + " was lost");
		if (right(p, e) && !p.tampered && e.answered && p.end != 4)
			fail("answer-lost", name(e) + ": the complete answer of the " + name(p) + " was lost");
		next(k);
	}
	void on_response(Cl &k, http::Response &&r) {
		if (!k.waiting)
			fail("response-unasked", "client " + std::to_string(k.id) + " got a response but waits for none");
		Exch &e = *k.plan[k.cur];
		Peer &p = *k.peer;
		PBT_LOG(c, name(e) << " response\n");
		if (!right(p, e))
			fail("wrong-server", name(e) + " got a response of " + name(p));
		if (!e.answered)
			fail("forged", name(e) + " got a response that was not sent");
		std::string id;
		for (auto &h : r.header.headers)
			if (h.name == "x-id")
				id = h.value;
		if (r.header.status != 200 || id != std::to_string(e.id) || r.body != e.rbody)
			fail("changed", name(e) + " got a response that differs from the one sent");
		++completed;
		next(k);
	}
	// nothing happens any more, though servers are still connected
	void judge() {
		for (auto &k : clients) {
			if (!k.waiting)
				continue;
			Exch &e = *k.plan[k.cur];
			Peer *p = k.peer;
			if (!p || p->released)
				fail("stall", name(e) + " waits for ever");
			if (p->tampered)
				continue;
			if (p->kind == tls::PLAIN && !p->legit_plain && !p->plain_sent)
				continue;
			if (!right(*p, e))
				fail("not-told", name(e) + ": application was not told that " + name(*p) + " cannot be trusted");
			fail("stall", name(e) + " waits for ever for " + name(*p));
		}
	}
};
void warm() {
	static bool done = false;
	if (done)
		return;
	done = true;
	RunLoop l;
	DNSResolver r([&](const std::vector<Address> &) { l.cancel(); });
	r.resolve("127.0.0.1", 1, true, false);
	l.run();
}
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	warm();
	tls::Pki::get();
	tls::seed(1 + g.below(1000));
	sim::World w(g, c);
	bool nt = false;
	std::string sig, err;
	{
		Hist h(g, c, w);
		try {
			h.loop.run();
		} catch (const sim::Abort &) {
		}
		sig = h.error_sig, err = h.error;
		nt = h.wrong || h.changed || h.completed >= 2;
		if (h.changed)
			c.cls("changed stream");
		if (h.completed)
			c.cls("completed");
		if (h.completed >= 2)
			c.cls("several completed");
		if (h.wrong)
			c.cls("wrong server");
	}
	if (!err.empty())
		c.fail(sig, err);
	w.finish();
	if (nt)
		c.nontrivial();
}
