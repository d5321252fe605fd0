#include <iostream>
#include <list>
#include <crab/crab.hpp>
#include "../ref/http_net.hpp"
#include "../sim.hpp"
const char *const PROP_ID   = "C25";
const char *const PROP_RULE =
    "1-3 library clients (ClientConnection by address or by name, ClientRequestSimple) make 1-6 exchanges each with two library servers: any method, path, query, headers, body, version and keep-alive, answered at once, later, by an "
    "exception or streamed; clients think between exchanges (up to longer than the keep-alive time), cancel, reconnect, are destroyed and reused at every moment, names fail to resolve and connects are refused; sockets take and give "
    "arbitrary parts; non-trivial: at least two completed exchanges of one client, or a cancelled or refused one followed by a completed one";
using namespace crab;
using namespace pbt;
namespace {
struct Hist;
struct Exch {
	int id = 0, client = 0;
	uint16_t port = 80;
	std::string method, path, tag, query, user, origin, body, ctype, csuffix, host;
	std::vector<std::pair<std::string, std::string>> headers;
	bool v10 = false, keep = true, by_uri = false;
	int mode = 0, status = 200;
	std::string status_text, rbody, rctype;
	std::vector<std::pair<std::string, std::string>> rheaders;
	bool rchunked = false;
	double delay = 0, think = 0;
	bool cancel         = false;
	double cancel_after = 0;
	int leave           = 0;  // what the client does to its connection before this exchange
	bool read_late      = false;
	// history
	bool sent = false, reached = false, answered = false, delivered = false, gone = false;
};
struct Job {
	http::Client *who;
	Exch *e;
	size_t pos = 0;
	bool dead = false, finished = false;
	std::unique_ptr<Timer> timer;
};
struct Cl {
	int id = 0, kind = 0;
	std::unique_ptr<http::ClientConnection> cc;
	std::unique_ptr<http::ClientRequestSimple> rs;
	std::unique_ptr<Timer> think, cancel, late;
	std::vector<Exch *> plan;
	size_t cur   = 0;
	bool waiting = false, loss_ok = false, last_keep = false, in_step = false, unread = false;
	size_t completed = 0, lost = 0, cancelled = 0, last_refused_then_ok = 0;
	std::string host;
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	std::list<Exch> exchanges;
	std::list<Job> jobs;
	std::list<Cl> clients;
	std::vector<std::unique_ptr<http::Server>> servers;
	bool done     = false;
	unsigned hard = 0;  // percent of refused connects, failed names
	void fail(const char *sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	std::string name(const Exch &e) { return "client " + std::to_string(e.client) + " exchange " + e.tag; }
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_) {
		for (uint16_t port : {80, 8080}) {
			servers.emplace_back(new http::Server(Address("0.0.0.0", port)));
			servers.back()->r_handler = [this, port](http::Client *who, http::Request &&rq) { on_request(port, who, std::move(rq)); };
		}
		if (g.chance(1, 3))
			hard = 25;
		size_t n = 1 + g.below(3);
		for (size_t i = 0; i != n; ++i)
			make_client(int(i));
		w.dns_answer = [this](const std::string &host, int family, std::vector<std::string> &ips) {
			for (auto &k : clients)
				if (k.host == host) {
					if (family != AF_INET)
						fail("family", "name resolved for another family than asked");
					if (g.below(100) < hard) {
						PBT_LOG(c, "name " << host << " not resolved\n");
						k.loss_ok = true;
						return int(EAI_NONAME);
					}
					for (size_t j = 1 + g.below(3); j--;)
						ips.push_back("127.0." + std::to_string(j) + "." + std::to_string(10 + k.id));
					return 0;
				}
			fail("name", "name asked that no client uses: " + host);
			return int(EAI_FAIL);
		};
		w.on_connect = [this](const sockaddr_storage &a, sim::EndP peer) {
			auto &in = reinterpret_cast<const sockaddr_in &>(a);
			int id   = int(ntohl(in.sin_addr.s_addr) & 255) - 10;
			for (auto &k : clients)
				if (k.id == id) {
					if (g.chance(1, 4))
						peer->sndbuf = 100 + g.below(3000);
					if (g.chance(1, 4))
						peer->peer.get()->sndbuf = 100 + g.below(3000);
					if (g.below(100) < hard) {
						PBT_LOG(c, "client " << id << " connect refused\n");
						k.loss_ok = true;
						return g.chance(1, 3) ? -ENETUNREACH : ECONNREFUSED;
					}
					return 0;
				}
			fail("address", "connect to an address that no client uses");
			return 0;
		};
		w.on_quiet = [this](int) {
			if (!w.quiet_for(100))
				return false;
			done = true;
			loop.cancel();
			return true;
		};
	}
	~Hist() {
		jobs.clear();
		clients.clear();
		servers.clear();
	}
	std::string token(size_t max) {
		static const char ab[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-._~";
		std::string s;
		for (size_t n = g.below(max); n--;)
			s += ab[g.below(sizeof(ab) - 1)];
		return s;
	}
	std::string escaped(const std::string &path) {
		std::string s;
		for (char ch : path)
			if ((unsigned char)ch <= 32 || (unsigned char)ch >= 127 || std::string("%?#[]@:\"").find(ch) != std::string::npos) {
				const char *hex = g.flag() ? "0123456789abcdef" : "0123456789ABCDEF";
				s += std::string("%") + hex[(unsigned char)ch >> 4] + hex[(unsigned char)ch & 15];
			} else
				s += ch;
		return s;
	}
	std::vector<std::pair<std::string, std::string>> make_headers() {
		std::vector<std::pair<std::string, std::string>> h;
		for (size_t n = g.below(4); n--;) {
			std::string v = g.str(g.below(40), "abcXYZ019 =;,/\"():[]{}@<>?\\\xc3\xa9");
			while (!v.empty() && v.back() == ' ')
				v.pop_back();
			while (!v.empty() && v[0] == ' ')
				v.erase(0, 1);
			h.push_back(std::make_pair("x-" + std::to_string(g.below(4)), v));
		}
		return h;
	}
	void make_client(int id) {
		clients.emplace_back();
		Cl &k  = clients.back();
		k.id   = id;
		k.kind = int(g.below(3));
		k.host = k.kind == 0 ? "127.0.0." + std::to_string(10 + id) : "h" + std::to_string(id) + ".example.org";
		k.think.reset(new Timer([this, &k] { step(k); }));
		k.cancel.reset(new Timer([this, &k] { cancel(k); }));
		k.late.reset(new Timer([this, &k] {
			if (k.unread)
				on_connection(k, true);
		}));
		create(k);
		size_t n = 1 + g.below(6);
		for (size_t i = 0; i != n; ++i) {
			exchanges.emplace_back();
			Exch &e  = exchanges.back();
			e.client = id;
			e.id     = int(exchanges.size());
			make_exchange(k, e);
			k.plan.push_back(&e);
			PBT_LOG(c, "client " << id << " kind " << k.kind << " " << e.method << " " << e.tag << " body " << e.body.size() << " port " << e.port << (e.v10 ? " 1.0" : "") << (e.keep ? "" : " close") << " mode " << e.mode << " status " << e.status
			                     << " response " << e.rbody.size() << (e.rchunked ? " chunked" : "") << " delay " << e.delay << " think " << e.think << (e.cancel ? " cancel after " + std::to_string(e.cancel_after) : "") << " leave " << e.leave << "\n");
		}
		k.think->once(double(g.below(3)) * 0.1);
	}
	void make_exchange(Cl &k, Exch &e) {
		e.port   = g.chance(1, 4) ? 8080 : 80;
		e.method = g.of({"GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"});
		e.path   = "/e" + std::to_string(e.id);
		if (g.chance(1, 2))
			e.path += "/p" + token(20);  // not a dot segment
		e.tag = e.path;
		if (g.chance(1, 3)) {  // what the uri has to escape
			e.path += "/q";
			for (size_t n = 1 + g.below(6); n--;)
				e.path += g.of({" ", "%", "?", "#", "%20", "\xc3\xa9", "\t", "a", "+", "&", ";", ":", "@", "[", "\"", "\x7f", "\r\n"});
			c.cls("path with escapes");
		}
		if (g.chance(1, 2))
			e.query = token(10) + "=" + g.of({"", "1", "%20%3f", "a+b", "x&y=z", "?"});
		e.headers = make_headers();
		e.v10     = g.chance(1, 6);
		e.keep    = !g.chance(1, 5);
		e.by_uri  = k.kind == 2 && g.flag();
		if (g.chance(1, 4))
			e.user = "u" + token(10) + ":" + token(10);
		if (g.chance(1, 4))
			e.origin = "http://" + token(5);
		if (g.chance(1, 2))
			e.body = g.blob(hn::body_size(g, 200000));
		if (g.chance(1, 3))
			e.ctype = "text/plain", e.csuffix = g.of({"", "charset=utf-8"});
		e.host   = k.host;
		e.status = std::vector<int>{200, 404, 500, 201, 299, 599, 422}[g.below(7)];
		if (g.flag())
			e.status_text = g.of({"Fine", "Not quite", "x"});
		e.rheaders = make_headers();
		if (g.chance(1, 3))
			e.rctype = "application/json";
		e.rbody = g.blob(hn::body_size(g, 300000));
		e.mode  = int(g.pick({4, 3, 1, 2, 2}));
		if (e.mode == 2) {
			e.status = 422;
			e.rbody.clear();
		}
		e.rchunked = e.mode != 2 && !e.v10 && g.chance(1, 3);
		e.delay    = double(g.below(4)) * 0.05;
		e.think    = g.chance(1, 2) ? 0 : g.chance(1, 6) ? double(g.below(25)) : double(g.below(10)) * 0.05;
		if (g.chance(1, 6)) {
			e.cancel       = true;
			e.cancel_after = double(g.below(6)) * 0.03;
		}
		e.leave     = int(g.pick({5, 1, 1}));
		e.read_late = k.kind != 2 && e.keep && g.chance(1, 6);
	}
	void create(Cl &k) {
		k.unread = false;
		if (k.kind == 2) {
			auto answer = [this, &k](http::Response &&r) { on_response(k, std::move(r)); };
			auto lost   = [this, &k](std::string &&s) { on_lost(k); };
			if (g.flag()) {
				k.rs.reset(new http::ClientRequestSimple());
				k.rs->set_handlers(answer, lost);
			} else
				k.rs.reset(new http::ClientRequestSimple(answer, lost));
		} else
			k.cc.reset(new http::ClientConnection([this, &k] { on_connection(k, false); }));
	}
	// ---- client side
	void step(Cl &k) {
		if (k.cur == k.plan.size() || k.waiting)
			return;
		Exch &e = *k.plan[k.cur];
		http::Request rq;
		rq.header.method = e.method;
		rq.header.path   = e.path;
		if (e.v10)
			rq.header.http_version_minor = 0;
		rq.header.keep_alive          = e.keep;
		rq.header.query_string        = e.query;
		rq.header.origin              = e.origin;
		rq.header.content_type_mime   = e.ctype;
		rq.header.content_type_suffix = e.csuffix;
		for (auto &h : e.headers)
			rq.header.headers.push_back(http::Header{h.first, h.second});
		if (!e.user.empty() && !e.by_uri)
			rq.header.basic_authorization = base64::encode(uint8_cast(e.user.data()), e.user.size());
		rq.set_body(std::string(e.body));
		PBT_LOG(c, "client " << k.id << " sends " << e.tag << "\n");
		k.waiting = true;
		k.in_step = true;
		e.sent    = true;
		if (k.kind == 2) {
			if (e.leave == 2)
				create(k);
			k.loss_ok = false;
			if (e.by_uri) {
				std::string uri = "http://" + (e.user.empty() ? std::string() : e.user + "@") + k.host + (e.port == 80 && g.flag() ? "" : ":" + std::to_string(e.port)) + escaped(e.path) + (e.query.empty() ? "" : "?" + e.query);
				rq.header.query_string.clear();
				if (g.chance(1, 8)) {  // a text that is not for this client changes nothing
					bool was = k.rs->is_open();
					try {
						k.rs->send(std::string(g.of({"ftp://h0.example.org/x", "//h0.example.org/x", "http://h0.example.org:99999/x", "http://h0.example.org:8o/x"})), http::Request());
						fail("bad-uri", name(e) + ": request to an impossible URI was not refused");
					} catch (const std::exception &) {
					}
					if (k.rs->is_open() != was)
						fail("bad-uri", name(e) + ": refused request opened or closed the connection");
				}
				if (e.method == "GET" && g.flag()) {
					rq.header.method = "PUT";
					k.rs->get(uri, std::move(rq));
				} else
					k.rs->send(uri, std::move(rq));
			} else {
				rq.header.host = k.host;
				k.rs->send(std::move(rq), e.port, "http");
			}
		} else {
			if (e.leave == 2)
				create(k);
			if (e.leave == 1)
				k.cc->close();
			if (!k.cc->is_open() || !k.last_keep || k.cc->get_port() != e.port) {
				k.loss_ok = false;
				bool ok   = k.kind == 0 ? k.cc->connect(Address(k.host, e.port)) : k.cc->connect(k.host, e.port);
				if (!ok) {
					k.in_step = false;
					if (!k.loss_ok)
						fail("connect", name(e) + ": connect failed without a reason");
					return on_lost(k);
				}
			}
			if (k.cc->get_host() != k.host || k.cc->get_port() != e.port || k.cc->get_protocol() != "http")
				fail("accessors", name(e) + ": connection shows another host, port or protocol");
			k.cc->write(std::move(rq));
		}
		k.in_step = false;
		if (e.cancel)
			k.cancel->once(e.cancel_after);
	}
	void next(Cl &k) {
		k.cancel->cancel();
		k.waiting = false;
		++k.cur;
		if (k.cur == k.plan.size())
			return;
		double t = k.plan[k.cur]->think;
		if (t == 0)
			step(k);
		else
			k.think->once(t);
	}
	void cancel(Cl &k) {
		if (!k.waiting)
			return;
		Exch &e = *k.plan[k.cur];
		PBT_LOG(c, "client " << k.id << " cancels " << e.path << "\n");
		e.gone   = true;
		k.unread = false;
		++k.cancelled;
		k.last_keep = false;
		if (k.kind == 2) {
			if (!k.rs->is_open())
				fail("is-open", name(e) + " is waiting but is_open() is false");
			k.rs->cancel();
			if (k.rs->is_open())
				fail("is-open", name(e) + " is cancelled but is_open() is true");
		} else {
			k.cc->close();
			if (k.cc->is_open())
				fail("is-open", "closed connection is open");
		}
		next(k);
	}
	void on_connection(Cl &k, bool by_timer) {
		if (k.in_step)
			fail("re-entered", "handler of client " + std::to_string(k.id) + " called from inside of a call");
		if (!k.cc->is_open()) {
			k.unread = false;
			if (k.waiting)
				return on_lost(k);
			if (k.last_keep)
				fail("idle-closed", "connection of client " + std::to_string(k.id) + " was closed though keep-alive was agreed");
			return;
		}
		if (k.waiting && k.plan[k.cur]->read_late && !by_timer) {
			k.unread = true;
			k.late->once(0.1);
			return;
		}
		http::Response r;
		k.unread = false;
		if (!k.cc->read_next(r)) {
			k.unread = by_timer;
			return;
		}
		http::Response r2;
		if (k.cc->read_next(r2))
			fail("two-responses", "client " + std::to_string(k.id) + " got two responses at once");
		on_response(k, std::move(r));
	}
	void on_lost(Cl &k) {
		if (k.cur == k.plan.size() || !k.waiting)
			fail("lost-twice", "client " + std::to_string(k.id) + " was told of a lost request that it does not wait for");
		Exch &e = *k.plan[k.cur];
		PBT_LOG(c, "client " << k.id << " lost " << e.tag << "\n");
		if (!k.loss_ok)
			fail("lost", name(e) + (e.reached ? e.answered ? " was answered but its response is lost" : " reached the server but was lost" : " was lost"));
		if (k.kind == 2 && k.rs->is_open())
			fail("is-open", name(e) + " is lost but is_open() is true");
		e.gone      = true;
		k.last_keep = false;
		++k.lost;
		next(k);
	}
	void on_response(Cl &k, http::Response &&r) {
		if (k.in_step)
			fail("re-entered", "handler of client " + std::to_string(k.id) + " called from inside of a call");
		if (!k.waiting)
			fail("unexpected-response", "client " + std::to_string(k.id) + " got a response that it does not wait for");
		Exch &e = *k.plan[k.cur];
		PBT_LOG(c, "client " << k.id << " response to " << e.tag << "\n");
		if (!e.answered)
			fail("early-response", name(e) + " got a response before it was written");
		std::string x;
		std::vector<std::pair<std::string, std::string>> got;
		for (auto &h : r.header.headers)
			if (h.name == "x-id")
				x += h.value;
			else if (!(e.mode == 2 && (h.name == "cache-control" || h.name == "expires")))
				got.push_back(std::make_pair(h.name, h.value));
		if (r.header.status != e.status)
			fail("status", name(e) + " got status " + std::to_string(r.header.status) + " instead of " + std::to_string(e.status));
		if (e.mode == 2) {
			if (r.body.find("reason <" + e.tag + ">") == std::string::npos)
				fail("error-text", name(e) + ": error text is missing");
		} else {
			if (x != e.tag)
				fail("mixed", name(e) + " got the response of " + x);
			if (got != e.rheaders)
				fail("response-headers", name(e) + ": response headers differ");
			if (r.body != e.rbody)
				fail("response-body", name(e) + ": response body of " + std::to_string(r.body.size()) + " bytes differs from the one written, " + std::to_string(e.rbody.size()) + " bytes");
			if (r.header.content_type_mime != e.rctype)
				fail("response-type", name(e) + ": response has content type " + r.header.content_type_mime);
			if (!e.status_text.empty() && r.header.status_text != e.status_text)
				fail("status-text", name(e) + ": status text differs");
		}
		if (r.header.keep_alive != e.keep || r.header.http_version_minor != (e.v10 ? 0 : 1))
			fail("response-keep", name(e) + ": keep_alive or version of the response differs");
		if (r.header.date.empty() || r.header.server != "crab")
			fail("date", name(e) + ": date or server is missing");
		if (k.kind == 2 && k.rs->is_open())
			fail("is-open", name(e) + " is complete but is_open() is true");
		e.delivered = true;
		k.last_keep = e.keep;
		++k.completed;
		k.last_refused_then_ok += k.lost + k.cancelled;
		next(k);
	}
	// ---- server side
	http::Response response(const Exch &e) {
		http::Response r;
		fill(r.header, e);
		r.body = e.rbody;
		if (!e.rchunked)
			r.header.content_length = e.rbody.size();
		return r;
	}
	void fill(http::ResponseHeader &h, const Exch &e) {
		h.status      = e.status;
		h.status_text = e.status_text;
		h.headers.push_back(http::Header{"x-id", e.tag});
		for (auto &x : e.rheaders)
			h.headers.push_back(http::Header{x.first, x.second});
		h.content_type_mime = e.rctype;
		if (e.rchunked)
			h.transfer_encoding_chunked = true;
	}
	void on_request(uint16_t port, http::Client *who, http::Request &&rq) {
		Exch *e = nullptr;
		for (auto &x : exchanges)
			if (x.path == rq.header.path)
				e = &x;
		PBT_LOG(c, "server " << port << ": " << rq.header.method << " " << rq.header.path << "\n");
		if (!e || !e->sent)
			fail("unknown-request", "server got a request that was never sent: " + rq.header.path);
		if (e->reached)
			fail("request-twice", name(*e) + " reached the server twice");
		e->reached = true;
		if (port != e->port)
			fail("server", name(*e) + " reached another server");
		if (rq.header.method != e->method || rq.header.query_string != e->query || rq.header.host != e->host || rq.header.origin != e->origin)
			fail("request-line", name(*e) + ": method, query, host or origin differs");
		if (rq.header.keep_alive != e->keep || rq.header.http_version_minor != (e->v10 ? 0 : 1))
			fail("request-keep", name(*e) + ": keep_alive or version differs");
		if (rq.header.content_type_mime != e->ctype || rq.header.content_type_suffix != e->csuffix)
			fail("request-type", name(*e) + ": content type differs");
		if (rq.header.basic_authorization != (e->user.empty() ? "" : base64::encode(uint8_cast(e->user.data()), e->user.size())))
			fail("request-user", name(*e) + ": authorization differs");
		if (rq.body != e->body)
			fail("request-body", name(*e) + ": body of " + std::to_string(rq.body.size()) + " bytes differs from the one sent, " + std::to_string(e->body.size()) + " bytes");
		bool same = rq.header.headers.size() == e->headers.size();
		for (size_t i = 0; same && i != e->headers.size(); ++i)
			same = rq.header.headers[i].name == e->headers[i].first && rq.header.headers[i].value == e->headers[i].second;
		if (!same)
			fail("request-headers", name(*e) + ": headers differ");
		switch (e->mode) {
		case 0:
			e->answered = true;
			who->write(response(*e));
			break;
		case 1: postpone(who, e); break;
		case 2: e->answered = true; throw std::runtime_error("reason <" + e->tag + ">");
		default: stream(who, e);
		}
	}
	Job *job(http::Client *who, Exch *e) {
		jobs.emplace_back();
		Job *j = &jobs.back();
		j->who = who;
		j->e   = e;
		return j;
	}
	void lost(Job *j) {
		if (j->dead)
			fail("disconnect-twice", name(*j->e) + ": disconnect reported twice or after the response");
		j->dead = true;
		if (!j->e->gone)
			fail("disconnect", name(*j->e) + ": server sees a disconnect though the client waits");
	}
	void postpone(http::Client *who, Exch *e) {
		Job *j = job(who, e);
		j->timer.reset(new Timer([this, j] {
			if (j->dead)
				return;
			j->e->answered = true;
			j->dead        = true;
			j->who->write(response(*j->e));
		}));
		j->timer->once(e->delay);
		who->postpone_response([this, j] { lost(j); });
	}
	void stream(http::Client *who, Exch *e) {
		Job *j = job(who, e);
		http::ResponseHeader h;
		fill(h, *e);
		if (!e->rchunked)
			h.content_length = e->rbody.size();
		e->answered = true;
		if (e->rbody.empty() && !e->rchunked)
			j->finished = true;
		if (e->mode == 4)
			j->timer.reset(new Timer([this, j] { produce(j); }));
		who->start_write_stream(h, [this, j] {
			if (j->finished)
				return;
			if (!j->who->is_open())
				return lost(j);
			if (!j->timer)
				return produce(j);
			if (!j->timer->is_set())
				j->timer->once(j->e->delay);
		});
	}
	void produce(Job *j) {
		if (j->dead || j->finished)
			return;
		Exch &e     = *j->e;
		bool forced = bool(j->timer);
		while (forced || j->who->can_write()) {
			size_t left = e.rbody.size() - j->pos;
			if (!left) {
				j->finished = true;
				if (e.rchunked)
					j->who->write_last_chunk();
				return;
			}
			size_t n = std::min(left, e.rbody.size() / 300 + 1 + g.below(g.flag() ? 100 : 20000));
			j->pos += n;
			if (n == left && !e.rchunked)
				j->finished = true;
			j->who->write(e.rbody.data() + j->pos - n, n);
			if (j->finished)
				return;
			if (forced && g.flag()) {
				j->timer->once(e.delay);
				return;
			}
		}
	}
	void verdict() {
		for (auto &k : clients) {
			if (k.waiting && k.cur != k.plan.size())
				fail("hangs", name(*k.plan[k.cur]) + (k.plan[k.cur]->reached ? k.plan[k.cur]->answered ? " was answered but the client still waits" : " reached the server but was not answered" : " did not reach the server"));
			if (k.cur != k.plan.size())
				fail("hangs", "harness: client " + std::to_string(k.id) + " did not finish");
		}
		for (auto &e : exchanges)
			if (e.delivered == e.gone)
				fail("outcome", name(e) + " has no single outcome");
	}
};
void warm() {
	static bool done = false;
	if (done)
		return;
	done = true;
	RunLoop l;
	DNSResolver r([&](const std::vector<Address> &) { l.cancel(); });
	r.resolve("127.0.0.1", 1, true, false);
	l.run();
	while (sim::DnsGate::get().sync() != sim::DnsGate::IDLE) {
	}
}
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	std::cout.rdbuf(nullptr);
	warm();
	sim::World w(g, c);
	bool nt = false;
	std::string sig, err;
	{
		Hist h(g, c, w);
		try {
			h.loop.run();
			h.verdict();
		} catch (const sim::Abort &) {
		}
		sig = h.error_sig, err = h.error;
		static const char *const kn[] = {"connection by address", "connection by name", "request object"};
		static const char *const nm[] = {"at once", "postponed", "exception", "streamed", "streamed by timer"};
		for (auto &k : h.clients) {
			c.cls(kn[k.kind]);
			if (k.cancelled)
				c.cls("cancelled");
			if (k.lost)
				c.cls("refused");
			if (k.completed > 1)
				nt = true, c.cls("several exchanges");
			if (k.last_refused_then_ok)
				nt = true, c.cls("completed after refused or cancelled");
		}
		for (auto &e : h.exchanges)
			if (e.delivered)
				c.cls(nm[e.mode]);
		if (w.eagain_sends)
			c.cls("socket buffer full");
	}
	if (!err.empty())
		c.fail(sig, err);
	w.finish();
	if (nt)
		c.nontrivial();
}
