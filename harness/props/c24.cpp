#include <iostream>
#include <list>
#include <crab/crab.hpp>
#include "../ref/http_net.hpp"
#include "../sim.hpp"
const char *const PROP_ID   = "C24";
const char *const PROP_RULE =
    "1-3 raw connections send 1-7 requests each (HTTP/1.0 and 1.1, keep-alive or close, bodies of either framing, sometimes a malformed request at the end, sometimes early disconnect), in arbitrary pieces, pipelined or not, "
    "pausing reads; each request is answered at once, later (timer), by an exception (422), by ErrorAuthorization (401), or streamed in or outside of its handler; small socket buffers and partial writes; raw bytes are parsed independently; "
    "non-trivial: a request arrived while an earlier one of the same connection was unanswered, or a response did not fit the socket buffer";
using namespace crab;
using namespace pbt;
namespace {
struct Hist;
struct Plan {
	std::string method, path, query, body, wire, host;
	std::vector<std::pair<std::string, std::string>> extra;
	bool v10 = false, close = false, malformed = false;
	int mode = 0, status = 200;
	std::string rbody, rtext;
	bool rchunked = false;
	double delay  = 0;
	bool seen = false, answered = false;
	int64_t asked_ns = 0;  // wall clock when the handler got the request
};
struct Conn {
	int id = 0;
	sim::EndP raw;
	std::vector<Plan> plans;
	std::string out;  // bytes to send
	size_t sent = 0, next = 0, checked = 0;
	bool started = false, aborted = false, finished = false, lockstep = false;
	size_t close_after = SIZE_MAX;  // last plan that is processed, the connection closes after it
	std::vector<size_t> ends;       // offset in out where each request ends
	size_t abort_at = SIZE_MAX;     // reset after so many bytes
	hn::MsgParser parser;
};
struct Job {  // unfinished response
	http::Client *who;
	Conn *conn;
	Plan *plan;
	size_t pos = 0;
	bool dead  = false, finished = false;
	std::unique_ptr<Timer> timer;
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	std::vector<std::unique_ptr<Conn>> conns;
	std::list<Job> jobs;
	std::unique_ptr<http::Server> server;
	bool done = false, overlap = false;
	void fail(const char *sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	std::string name(const Conn &k, const Plan &p) { return "connection " + std::to_string(k.id) + " request " + p.path; }
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_) {
		http::Server::Settings st;
		server.reset(new http::Server(Address("0.0.0.0", 80), st));
		server->r_handler = [this](http::Client *who, http::Request &&rq) { on_request(who, std::move(rq)); };
		size_t n          = 1 + g.below(3);
		for (size_t i = 0; i != n; ++i)
			make_conn(int(i));
		w.actions   = [this]() { return done ? 0 : todo(false, 0); };
		w.do_action = [this](size_t i) { todo(true, i); };
		w.after_event = [this] {
			for (auto &k : conns)
				drain(*k);
		};
		w.on_quiet = [this](int) {
			for (auto &k : conns)
				if (k->raw && k->raw->paused) {
					k->raw->paused = false;
					return true;
				}
			if (!w.quiet_for(100))
				return false;
			done = true;
			loop.cancel();
			return true;
		};
	}
	~Hist() {
		jobs.clear();
		server.reset();
	}
	void make_conn(int id) {
		conns.emplace_back(new Conn);
		auto &k    = *conns.back();
		k.id       = id;
		k.lockstep = g.chance(1, 3);
		size_t n   = 1 + g.below(7);
		for (size_t i = 0; i != n; ++i) {
			k.plans.emplace_back();
			Plan &p = k.plans.back();
			p.path  = "/c" + std::to_string(id) + "/r" + std::to_string(i);
			if (i + 1 == n && g.chance(1, 6)) {
				p.malformed = true;
				p.wire      = g.of({"GET /x HTTP/9x1\r\n\r\n", "GET /x HTTP/1.1\r\nContent-Length: 5x\r\n\r\n", "POST /x HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nZZ\r\n\r\n", "\x01\x02 / HTTP/1.1\r\n\r\n", "GET /x HTTP/1.1\r\nbad header\r\n\r\n"});
			} else
				make_plan(p);
			if (k.close_after == SIZE_MAX && (p.close || p.malformed))
				k.close_after = i;
			k.out += p.wire;
			k.ends.push_back(k.out.size());
			PBT_LOG(c, "connection " << id << " request " << i << (p.malformed ? " malformed " : " ") << Ctx::esc(p.wire, 150) << " mode " << p.mode << " status " << p.status << " response " << p.rbody.size() << (p.rchunked ? " chunked" : "") << " delay " << p.delay
			                        << "\n");
		}
		if (g.chance(1, 8))
			k.abort_at = g.below(k.out.size() + 1);
	}
	void make_plan(Plan &p) {
		p.method = g.of({"GET", "POST", "PUT", "DELETE", "OPTIONS"});
		p.v10    = g.chance(1, 6);
		p.close  = p.v10;
		if (g.flag())
			p.query = "a=" + std::to_string(g.below(100));
		std::string h = p.method + " " + p.path + (p.query.empty() ? "" : "?" + p.query) + (p.v10 ? " HTTP/1.0" : " HTTP/1.1") + "\r\n";
		p.host        = g.of({"localhost", "example.org:8080", "h"});
		h += "Host: " + p.host + "\r\n";
		switch (g.pick({4, 1, 1})) {
		case 1:
			h += "Connection: close\r\n";
			p.close = true;
			break;
		case 2:
			h += "Connection: keep-alive\r\n";
			p.close = false;
			break;
		}
		for (size_t e = g.below(3); e--;) {
			p.extra.push_back(std::make_pair("x-h" + std::to_string(g.below(5)), g.str(g.below(30), "abc =;,/\"")));
			auto &v = p.extra.back().second;
			while (!v.empty() && v.back() == ' ')
				v.pop_back();
			while (!v.empty() && v[0] == ' ')
				v.erase(0, 1);
			h += p.extra.back().first + ": " + v + "\r\n";
		}
		bool with_body = g.chance(1, 2);
		if (with_body)
			p.body = g.blob(hn::body_size(g, 60000));
		if (with_body && !p.v10 && g.flag())
			p.wire = h + "Transfer-Encoding: chunked\r\n\r\n" + hn::chunked(g, p.body);
		else
			p.wire = h + (with_body || g.flag() ? "Content-Length: " + std::to_string(p.body.size()) + "\r\n" : "") + "\r\n" + p.body;
		p.mode   = int(g.pick({4, 4, 1, 1, 2, 2, 1}));
		p.rbody  = g.blob(hn::body_size(g, 200000));
		p.status = std::vector<int>{200, 404, 201, 500}[g.below(4)];
		p.delay  = double(g.below(4)) * 0.05;
		if (p.mode == 0 || p.mode == 1 || p.mode >= 4)
			p.rchunked = (p.mode == 4 || p.mode == 5) && g.flag() && !p.v10;
		if (p.mode == 2) {
			p.status = 422;
			p.rbody.clear();
		}
		if (p.mode == 3) {
			p.status = 401;
			p.rbody.clear();
		}
	}
	http::Response response(const Plan &p) {
		http::Response r;
		r.header.status = p.status;
		r.header.headers.push_back(http::Header{"x-path", p.path});
		r.header.set_content_type("application/octet-stream");
		r.set_body(std::string(p.rbody));
		return r;
	}
	Conn *find(const std::string &path, Plan **p) {
		for (auto &k : conns)
			for (auto &q : k->plans)
				if (q.path == path && !q.malformed) {
					*p = &q;
					return k.get();
				}
		return nullptr;
	}
	void on_request(http::Client *who, http::Request &&rq) {
		Plan *p = nullptr;
		Conn *k = find(rq.header.path, &p);
		PBT_LOG(c, "handler: " << rq.header.method << " " << rq.header.path << "\n");
		if (!k)
			fail("unknown-request", "handler got a request that was never sent: " + rq.header.path);
		size_t ix = size_t(p - k->plans.data());
		if (p->seen)
			fail("request-twice", name(*k, *p) + " reached the handler twice");
		if (ix != k->next)
			fail("request-order", name(*k, *p) + " reached the handler before request " + std::to_string(k->next));
		if (ix > k->close_after)
			fail("after-close", name(*k, *p) + " was processed after a response that ends keep-alive");
		if (ix && !k->plans[ix - 1].answered)
			fail("request-early", name(*k, *p) + " was processed before the previous one was answered");
		p->seen     = true;
		p->asked_ns = w.wall_ns();
		++k->next;
		if (rq.header.method != p->method || rq.header.query_string != p->query || rq.header.host != p->host)
			fail("request-differs", name(*k, *p) + " differs in its start line or host");
		if (rq.body != p->body)
			fail("request-body", name(*k, *p) + " has a body of " + std::to_string(rq.body.size()) + " bytes that differs from the one sent, " + std::to_string(p->body.size()) + " bytes");
		if (rq.header.headers.size() != p->extra.size())
			fail("request-headers", name(*k, *p) + " has " + std::to_string(rq.header.headers.size()) + " extra headers");
		for (size_t i = 0; i != p->extra.size(); ++i)
			if (rq.header.headers[i].name != p->extra[i].first || rq.header.headers[i].value != p->extra[i].second)
				fail("request-headers", name(*k, *p) + " header " + p->extra[i].first + " differs");
		if (rq.header.keep_alive == p->close || rq.header.http_version_minor != (p->v10 ? 0 : 1))
			fail("request-differs", name(*k, *p) + " keep_alive or version differs");
		if (ix + 1 < k->plans.size() && k->raw->arrived_total > k->ends[ix])
			overlap = true;
		switch (p->mode) {
		case 0:
			p->answered = true;
			who->write(response(*p));
			break;
		case 1: postpone(who, k, p, false); break;
		case 2: p->answered = true; throw std::runtime_error("reason <" + p->path + ">");
		case 3: p->answered = true; throw http::ErrorAuthorization("realm " + p->path);
		case 4:
		case 5: stream(who, k, p); break;
		default:  // postponed, then answered in the same handler
			postpone(who, k, p, true);
			p->answered = true;
			who->write(response(*p));
		}
	}
	void postpone(http::Client *who, Conn *k, Plan *p, bool at_once) {
		if (at_once) {
			who->postpone_response([this] { fail("late-disconnect", "disconnect handler called after the response was written"); });
			return;
		}
		jobs.emplace_back();
		Job *j  = &jobs.back();
		j->who  = who;
		j->conn = k;
		j->plan = p;
		j->timer.reset(new Timer([this, j] {
			if (j->dead)
				return;
			PBT_LOG(c, "answering " << j->plan->path << "\n");
			j->plan->answered = true;
			j->dead           = true;
			j->who->write(response(*j->plan));
		}));
		j->timer->once(p->delay);
		who->postpone_response([this, j] {
			if (j->dead)
				fail("late-disconnect", "disconnect handler called after the response was written");
			j->dead = true;
			if (!j->conn->aborted)
				fail("disconnect", name(*j->conn, *j->plan) + ": disconnect reported though the peer did not leave");
		});
	}
	void stream(http::Client *who, Conn *k, Plan *p) {
		jobs.emplace_back();
		Job *j  = &jobs.back();
		j->who  = who;
		j->conn = k;
		j->plan = p;
		http::ResponseHeader h;
		h.status = p->status;
		h.headers.push_back(http::Header{"x-path", p->path});
		if (p->rchunked)
			h.transfer_encoding_chunked = true;
		else
			h.content_length = p->rbody.size();
		if (p->mode == 5)
			j->timer.reset(new Timer([this, j] { produce(j, true); }));
		// Mode 4: written by the stream handler as the socket allows. Mode 5: written on a timer
		if (p->rbody.empty() && !p->rchunked)
			p->answered = j->finished = true;  // complete with its head
		http::Client *wh = who;
		wh->start_write_stream(h, [this, j] {
			if (j->timer) {
				if (j->finished)
					return;
				if (!j->who->is_open())
					j->dead = true;
				else if (!j->timer->is_set())
					j->timer->once(j->plan->delay);
				return;
			}
			produce(j, false);
		});
	}
	void produce(Job *j, bool timer) {
		if (j->dead || j->finished)
			return;
		if (!j->who->is_open()) {
			j->dead = true;
			return;
		}
		Plan &p = *j->plan;
		while (j->who->can_write() || timer) {
			size_t left = p.rbody.size() - j->pos;
			if (!left) {
				j->finished = true;
				p.answered  = true;
				if (p.rchunked)
					j->who->write_last_chunk();
				return;
			}
			size_t n = std::min(left, p.rbody.size() / 300 + 1 + g.below(g.flag() ? 100 : 20000));
			j->pos += n;
			if (n == left && !p.rchunked)
				p.answered = j->finished = true;
			j->who->write(p.rbody.data() + j->pos - n, n);
			if (j->finished)
				return;
			if (timer && g.flag()) {
				j->timer->once(p.delay);
				return;
			}
		}
	}
	// ---- peers
	size_t todo(bool act, size_t i) {
		size_t n = 0;
		for (auto &kp : conns) {
			Conn &k = *kp;
			if (k.aborted || k.finished)
				continue;
			if (!k.started) {
				if (act && i == n) {
					k.started = true;
					k.raw     = w.connect_raw(80);
					if (g.chance(1, 3))
						k.raw->peer->sndbuf = 100 + g.below(3000);
					return 0;
				}
				++n;
				continue;
			}
			if (k.raw->gone())
				continue;
			if (k.sent < k.out.size() && may_send(k)) {
				if (act && i == n) {
					send(k);
					return 0;
				}
				++n;
			}
			if (g_pause && !k.raw->paused) {
				if (act && i == n) {
					k.raw->paused = true;
					--g_pause;
					return 0;
				}
				++n;
			}
			if (k.raw->paused) {
				if (act && i == n) {
					k.raw->paused = false;
					return 0;
				}
				++n;
			}
		}
		return n;
	}
	int g_pause = 4;
	bool may_send(Conn &k) {
		if (!k.lockstep)
			return true;
		for (size_t r = 0; r != k.ends.size(); ++r)
			if (k.sent < k.ends[r])
				return r <= k.parser.out.size();
		return true;
	}
	void send(Conn &k) {
		size_t limit = k.out.size();
		if (k.lockstep)
			for (size_t r = 0; r != k.ends.size(); ++r)
				if (k.sent < k.ends[r]) {
					limit = k.ends[r];
					break;
				}
		size_t left = limit - k.sent, n = left;
		switch (g.pick({3, 2, 2})) {
		case 0: break;
		case 1: n = 1 + g.below(std::min<size_t>(left, 30)); break;
		default: n = 1 + g.below(left);
		}
		if (k.sent + n >= k.abort_at) {
			n         = k.abort_at - k.sent;
			k.aborted = true;
		}
		k.raw->send(k.out.substr(k.sent, n));
		k.sent += n;
		if (k.aborted) {
			PBT_LOG(c, "connection " << k.id << " breaks off after " << k.sent << " bytes\n");
			if (g.flag())
				k.raw->rst();
			else
				k.raw->app_close();
		}
	}
	void drain(Conn &k) {
		if (!k.raw || k.aborted || k.finished)
			return;
		if (!k.raw->rq.empty())
			k.parser.feed(k.raw->take());
		if (!k.parser.error.empty())
			fail("response-malformed", "connection " + std::to_string(k.id) + ": " + k.parser.error);
		for (; k.checked != k.parser.out.size(); ++k.checked)
			check_response(k, k.parser.out[k.checked]);
		if (k.raw->gone()) {
			k.finished = true;
			if (k.raw->dead)
				fail("reset", "connection " + std::to_string(k.id) + " was reset by the server");
			if (k.close_after == SIZE_MAX)
				fail("closed", "connection " + std::to_string(k.id) + " was closed by the server though keep-alive was agreed");
			complete(k);
			k.raw->app_close();
		}
	}
	void complete(Conn &k) {
		size_t want = k.plans.size();
		if (k.close_after != SIZE_MAX)
			want = k.close_after + (k.plans[k.close_after].malformed ? 0 : 1);
		if (k.parser.partial())
			fail("truncated", "connection " + std::to_string(k.id) + " ends within response " + std::to_string(k.checked));
		if (k.checked != want)
			fail("missing", "connection " + std::to_string(k.id) + " got " + std::to_string(k.checked) + " responses instead of " + std::to_string(want));
	}
	void check_response(Conn &k, const hn::Msg &m) {
		size_t ix = k.checked;
		if (ix >= k.plans.size() || ix > k.close_after || k.plans[ix].malformed)
			fail("extra-response", "connection " + std::to_string(k.id) + " got more responses than requests");
		Plan &p = k.plans[ix];
		if (!p.answered)
			fail("early-response", name(k, p) + " got a response before it was written");
		if (m.status != p.status)
			fail("status", name(k, p) + " got status " + std::to_string(m.status) + " instead of " + std::to_string(p.status));
		if (m.v10 != p.v10)
			fail("version", name(k, p) + " got a response of another version");
		if (m.close != p.close)
			fail("keep-alive", name(k, p) + (p.close ? ": response claims keep-alive" : ": response does not confirm keep-alive"));
		if (m.count("date") != 1 || m.count("server") != 1)
			fail("date", name(k, p) + ": date or server header missing or repeated");
		int64_t at = hn::imf_fixdate(*m.find("date"));
		if (at < 0)
			fail("date-format", name(k, p) + ": date header is not a date: " + *m.find("date"));
		// The text may be half a second old and has no fraction; the loop may be late by late_ns
		if (at * 1000000000 > w.wall_ns() || at * 1000000000 < p.asked_ns - 3000000000LL - w.late_ns)
			fail("date-wrong", name(k, p) + ": date header is " + *m.find("date") + ", " + std::to_string(at - p.asked_ns / 1000000000) + " seconds from when the request arrived");
		if (p.mode == 2) {
			if (m.body.find("reason <" + p.path + ">") == std::string::npos)
				fail("error-text", name(k, p) + ": error text is missing");
			return;
		}
		if (p.mode == 3) {
			auto a = m.find("www-authenticate");
			if (!a || a->find("realm " + p.path) == std::string::npos)
				fail("realm", name(k, p) + ": no WWW-Authenticate header");
			return;
		}
		auto x = m.find("x-path");
		if (!x || *x != p.path || m.count("x-path") != 1)
			fail("mixed", name(k, p) + " got the response of another request: " + (x ? *x : std::string("?")));
		if (m.chunked != p.rchunked)
			fail("framing", name(k, p) + ": response framed in another way than asked");
		if (m.body != p.rbody)
			fail("body", name(k, p) + ": response body of " + std::to_string(m.body.size()) + " bytes differs from the one written, " + std::to_string(p.rbody.size()) + " bytes");
	}
	void verdict() {
		for (auto &kp : conns) {
			Conn &k = *kp;
			if (k.aborted || k.finished || !k.started)
				continue;
			if (k.close_after != SIZE_MAX && k.sent >= k.ends[k.close_after])
				fail("not-closed", "connection " + std::to_string(k.id) + " was not closed after its last response");
			complete(k);
		}
	}
};
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	std::cout.rdbuf(nullptr);
	sim::World w(g, c);
	// The library keeps the date of a response for half a second of monotonic time, per thread. So that this does not
	// cross from case to case, the monotonic clock goes on where the previous case left it; the wall clock starts anywhere.
	static const int zone = setenv("TZ", "XYZ-5:30", 1);  // dates do not depend on the local time zone
	(void)zone;
	static int64_t base = 0;
	struct Keep {
		sim::World &w;
		~Keep() { base = w.now_ns + 10000000000LL; }
	} keep{w};
	w.now_ns = w.last_activity_ns = std::max(base, w.now_ns);
	w.wall_offset                 = int64_t(g.below(8000000000ULL)) * 1000000000LL - w.now_ns + int64_t(g.below(1000000000));
	bool nt = false;
	std::string sig, err;
	{
		Hist h(g, c, w);
		try {
			h.loop.run();
			h.verdict();
		} catch (const sim::Abort &) {
		}
		sig = h.error_sig, err = h.error;
		for (auto &k : h.conns) {
			if (k->aborted)
				c.cls("peer broke off");
			if (k->finished && k->close_after != SIZE_MAX)
				c.cls(k->plans[k->close_after].malformed ? "closed after malformed" : "closed by keep-alive rules");
			if (k->checked >= 3)
				c.cls("3 or more responses on a connection");
			for (auto &p : k->plans)
				if (p.answered) {
					static const char *const nm[] = {"at once", "postponed", "exception", "authorization", "streamed", "streamed by timer", "postponed and written"};
					c.cls(nm[p.mode]);
				}
		}
		if (h.overlap)
			c.cls("pipelined");
		if (w.eagain_sends)
			c.cls("socket buffer full");
		nt = h.overlap || w.eagain_sends;
	}
	if (!err.empty())
		c.fail(sig, err);
	w.finish();
	if (nt)
		c.nontrivial();
}
