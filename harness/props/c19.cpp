#include <crab/crab.hpp>
#include <iostream>
#include "../sim.hpp"
const char *const PROP_ID   = "C19";
const char *const PROP_RULE =
    "histories over up to 14 live objects (Timer, Idle, Watcher, TCPSocket, BufferedTCPSocket, TCPAcceptor, UDPReceiver, UDPTransmitter, http::ServerConnection, http::ClientConnection and a library to library or raw peer for "
    "each); every handler performs generated actions on any object including its own: destroy, close, close with event, cancel, re-arm, replace the handler, reconnect, call, write, shut down, create; several sources are ready at once; each "
    "handler call is checked against what was armed, memory by AddressSanitizer, descriptors by the simulated kernel; non-trivial: an object was destroyed, closed or cancelled from a handler while several events were ready";
using namespace crab;
using namespace pbt;

namespace {
struct Hist;
enum Kind { TIMER, IDLE, WATCHER, TCP, BUF, ACCEPTOR, UDPR, UDPT, SERVERC, CLIENTC, KINDS };
const char *const NAMES[] = {"Timer", "Idle", "Watcher", "TCPSocket", "BufferedTCPSocket", "TCPAcceptor", "UDPReceiver", "UDPTransmitter", "ServerConnection", "ClientConnection"};
struct Obj {
	Kind kind;
	int id, port = 0, calls = 0, version = 0;
	enum St { OFF, ARMED, CLOSING } st = OFF;  // OFF: the handler must not run
	std::unique_ptr<Timer> timer;
	std::unique_ptr<Idle> idle;
	std::unique_ptr<Watcher> watcher;
	std::unique_ptr<TCPSocket> tcp;
	std::unique_ptr<BufferedTCPSocket> buf;
	std::unique_ptr<TCPAcceptor> acc;
	std::unique_ptr<UDPReceiver> udpr;
	std::unique_ptr<UDPTransmitter> udpt;
	std::unique_ptr<http::ServerConnection> srv;
	std::unique_ptr<http::ClientConnection> cli;
	bool conn() const { return kind == TCP || kind == BUF || kind == SERVERC || kind == CLIENTC; }
	bool is_open() const { return tcp ? tcp->is_open() : buf ? buf->is_open() : srv ? srv->is_open() : cli ? cli->is_open() : false; }
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	std::vector<std::unique_ptr<Obj>> objs;
	std::vector<sim::EndP> raws;
	size_t kills = 0;
	int next_id = 0, budget, depth = 0;
	int64_t spent_ns = 0;
	bool done = false;
	Timer driver;
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_), driver([this] { drive(); }) {
		w.burst       = 1 + unsigned(g.below(8));
		w.max_step_ns = g.flag() ? 0 : 3000000000LL;
		budget        = int(10 + g.below(80));
		w.fd_limit    = g.chance(1, 10) ? 6 + g.below(6) : 1000000;
		w.on_connect  = [this](const sockaddr_storage &a, sim::EndP peer) {
            int port = sim::port_of(a);
            if (g.chance(1, 12))
                return g.flag() ? ECONNREFUSED : -ENETUNREACH;
            if (!w.listener(port)) {
                if (port != 90)
                    return ECONNREFUSED;
                peer->raw = true;
                raws.push_back(peer);
            }
            small(peer), small(peer->peer);
            return 0;
		};
		if (g.chance(1, 10))
			w.accept_fault = [this] { return g.chance(1, 4) ? (g.flag() ? EMFILE : ECONNABORTED) : 0; };
		if (g.chance(1, 8))
			w.send_fault = [this] { return g.chance(1, 10) ? (g.flag() ? EPIPE : ECONNRESET) : 0; };
		w.actions   = [this] { return actions().size(); };
		w.do_action = [this](size_t i) { actions()[i](); };
		w.on_quiet  = [this](int) {
            if (budget > 0)
                return false;
            if (!spent_ns)
                spent_ns = w.now_ns;
            // two web sockets of the library ping each other for ever
            if (!w.quiet_for(200) && w.now_ns - spent_ns < 1000000000000LL)
                return false;
            done = true;
            loop.cancel();
            return true;
		};
		size_t n = 2 + g.below(8);
		for (size_t i = 0; i != n; ++i)
			create();
		driver.once(0.);
	}
	void small(sim::EndP e) {
		if (g.flag())
			e->sndbuf = 1 + g.below(100), e->rcvbuf = 1 + g.below(100);
	}
	void fail(const char *sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	Obj *find(int id) {
		for (auto &o : objs)
			if (o->id == id)
				return o.get();
		return nullptr;
	}
	// network side
	std::vector<std::function<void()>> actions() {
		std::vector<std::function<void()>> r;
		if (done)
			return r;
		if (budget > 0)
			for (auto &o : objs)
				if (o->kind == ACCEPTOR && raws.size() < 12) {
					int port = o->port;
					r.push_back([this, port] {
						auto e = w.connect_raw(port);
						PBT_LOG(c, "raw peer connects to " << port << "\n");
						--budget;
						if (e)
							small(e), small(e->peer), raws.push_back(e);
					});
					break;
				}
		for (auto &e : raws) {
			auto p = e;
			if (p->state == sim::End::OPEN && !p->orphan && (budget > 0 || p->rq.size() || p->gone()))
				r.push_back([this, p] { raw_action(p); });
			if (r.size() > 3)
				break;
		}
		return r;
	}
	void raw_action(sim::EndP p) {
		p->take();
		if (p->gone() || budget <= 0) {
			p->app_close();
			return;
		}
		--budget;
		switch (g.pick({4, 3, 2, 1, 1})) {
		case 0: {
			static const std::vector<std::string> msgs{"GET /a HTTP/1.1\r\nHost: x\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc", "x", std::string(300, 'y'),
			    "GET /ws HTTP/1.1\r\nHost: x\r\nConnection: upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n",
			    std::string("\x89\x80\x01\x02\x03\x04", 6), std::string("\x81\x83\x01\x01\x01\x01" "abc", 9), std::string("\x88\x80\x01\x02\x03\x04", 6), "POST / HTTP/1.0\r\nContent-Length: 5\r\n\r\n12",
			    "\r\n\r\n", "bad request\x01\r\n\r\n"};
			auto &m = g.of(msgs);
			p->send(m);
			break;
		}
		case 1: p->send(g.blob(1 + g.len(500))); break;
		case 2: p->fin(); break;
		case 3: p->app_close(); break;
		default: p->rst();
		}
	}
	// library side
	void destroy(size_t i) {
		PBT_LOG(c, "destroy " << NAMES[objs[i]->kind] << objs[i]->id << "\n");
		auto o = std::move(objs[i]);
		objs.erase(objs.begin() + long(i));
		if (depth)
			c.cls("destroyed in a handler"), ++kills;
	}
	void create() {
		if (objs.size() >= 14)
			return;
		std::unique_ptr<Obj> u(new Obj);
		Obj *o  = u.get();
		o->kind = Kind(g.pick({2, 1, 2, 4, 3, 2, 1, 1, 2, 2}));
		int id = o->id = next_id++;
		PBT_LOG(c, "create " << NAMES[o->kind] << id << "\n");
		c.cls(NAMES[o->kind]);
		Handler cb = handler(id, 0);
		try {
			switch (o->kind) {
			case TIMER: o->timer.reset(new Timer(std::move(cb))); break;
			case IDLE:
				o->idle.reset(new Idle(std::move(cb)));
				o->st = Obj::ARMED;
				break;
			case WATCHER: o->watcher.reset(new Watcher(std::move(cb))); break;
			case TCP: o->tcp.reset(new TCPSocket(std::move(cb))); break;
			case BUF: o->buf.reset(new BufferedTCPSocket(std::move(cb))); break;
			case ACCEPTOR: {
				int port = int(80 + g.below(2));
				if (w.listener(port))
					return;
				o->port = port;
				o->acc.reset(new TCPAcceptor(Address("127.0.0.1", uint16_t(port)), std::move(cb)));
				o->st = Obj::ARMED;
				break;
			}
			case UDPR:
				o->udpr.reset(new UDPReceiver(Address("127.0.0.1", uint16_t(70 + g.below(2))), std::move(cb)));
				o->st = Obj::ARMED;
				break;
			case UDPT:
				o->udpt.reset(new UDPTransmitter(Address("127.0.0.1", uint16_t(70 + g.below(2))), std::move(cb)));
				o->st = Obj::ARMED;
				break;
			case SERVERC: o->srv.reset(new http::ServerConnection(std::move(cb))); break;
			default: o->cli.reset(new http::ClientConnection(std::move(cb)));
			}
		} catch (const std::exception &) {
			return;  // out of descriptors
		}
		objs.push_back(std::move(u));
		if (g.chance(2, 3))
			arm(*o);
	}
	Handler handler(int id, int version) {
		// half of the handlers keep their captures on the heap, so that a handler destroyed too early is seen
		if (g.flag()) {
			auto self = std::make_shared<std::string>(100, 'x');
			auto me   = this;
			return [self, me, id, version] { me->on(id, version); };
		}
		return [this, id, version] { on(id, version); };
	}
	void replace(Obj &o) {
		PBT_LOG(c, "replace the handler of " << NAMES[o.kind] << o.id << "\n");
		c.cls("handler replaced");
		Handler cb = handler(o.id, ++o.version);
		switch (o.kind) {
		case TIMER: o.timer->set_handler(std::move(cb)); break;
		case IDLE: o.idle->set_handler(std::move(cb)); break;
		case WATCHER: o.watcher->set_handler(std::move(cb)); break;
		case TCP: o.tcp->set_handler(std::move(cb)); break;
		case BUF: o.buf->set_handler(std::move(cb)); break;
		case ACCEPTOR: o.acc->set_handler(std::move(cb)); break;
		case UDPR: o.udpr->set_handler(std::move(cb)); break;
		case UDPT: o.udpt->set_handler(std::move(cb)); break;
		case SERVERC: o.srv->set_handler(std::move(cb)); break;
		case CLIENTC: o.cli->set_handler(std::move(cb)); break;
		default: break;
		}
	}
	void arm(Obj &o) {
		if (o.conn() && o.kind != SERVERC) {
			Address a("127.0.0.1", g.of(std::vector<uint16_t>{80, 81, 90}));
			PBT_LOG(c, "connect " << NAMES[o.kind] << o.id << " to " << a.get_port() << "\n");
			bool ok = o.tcp ? o.tcp->connect(a) : o.buf ? o.buf->connect(a) : o.cli->connect(a);
			if (ok != o.is_open())
				fail("is-open", "is_open() after connect()");
			o.st = ok ? Obj::ARMED : Obj::OFF;
			return;
		}
		switch (o.kind) {
		case TIMER: {
			double d = g.of(std::vector<double>{0, 0.001, 0.01, 5, 0});
			PBT_LOG(c, "Timer" << o.id << ".once(" << d << ")\n");
			o.timer->once(d);
			o.st = Obj::ARMED;
			break;
		}
		case IDLE:
			PBT_LOG(c, "Idle" << o.id << " on\n");
			o.idle->set_active(true), o.st = Obj::ARMED;
			break;
		case WATCHER:
			PBT_LOG(c, "Watcher" << o.id << " call\n");
			o.watcher->call(), ++o.calls, o.st = Obj::ARMED;
			break;
		case SERVERC:
			for (auto &x : objs)
				if (x->kind == ACCEPTOR && x->acc->can_accept()) {
					accept(*x, o);
					break;
				}
			break;
		default: break;
		}
	}
	void accept(Obj &a, Obj &o) {
		PBT_LOG(c, NAMES[o.kind] << o.id << " accepts\n");
		if (o.tcp)
			o.tcp->accept(*a.acc);
		else if (o.buf)
			o.buf->accept(*a.acc);
		else
			o.srv->accept(*a.acc);
		o.st = Obj::ARMED;
		if (!o.is_open())
			fail("is-open", "is_open() after accept()");
	}
	void disarm(Obj &o) {
		switch (o.kind) {
		case TIMER:
			o.timer->cancel();
			if (o.timer->is_set())
				fail("is-set", "is_set() after cancel()");
			break;
		case IDLE: o.idle->set_active(false); break;
		case WATCHER: o.watcher->cancel(), o.calls = 0; break;
		case TCP:
		case BUF:
			if (g.chance(1, 3)) {
				bool was = o.is_open();
				PBT_LOG(c, "close(true) " << NAMES[o.kind] << o.id << (was ? "" : " (not open)") << "\n");
				if (o.tcp)
					o.tcp->close(true);
				else
					o.buf->close(true);
				o.st = was ? Obj::CLOSING : Obj::OFF;
				c.cls("close with event");
				return;
			}
			if (o.tcp)
				o.tcp->close();
			else
				o.buf->close();
			break;
		case SERVERC: o.srv->close(); break;
		case CLIENTC: o.cli->close(); break;
		default: return;
		}
		PBT_LOG(c, "cancel/close " << NAMES[o.kind] << o.id << "\n");
		if (o.is_open())
			fail("is-open", "is_open() after close()");
		if (depth && o.st != Obj::OFF)
			c.cls("cancelled in a handler"), ++kills;
		o.st = Obj::OFF;
	}
	void io(Obj &o) {
		std::string d(1 + g.len(200), 'd');
		char rd[100];
		uint8_t *urd = reinterpret_cast<uint8_t *>(rd);
		const uint8_t *ud = reinterpret_cast<const uint8_t *>(d.data());
		switch (o.kind) {
		case TCP:
			switch (g.below(3)) {
			case 0: o.tcp->read_some(rd, sizeof(rd)); break;
			case 1: o.tcp->write_some(d.data(), d.size()); break;
			default: o.tcp->write_shutdown();
			}
			break;
		case BUF:
			switch (g.below(3)) {
			case 0: o.buf->read_some(rd, sizeof(rd)); break;
			case 1: o.buf->write(std::move(d)); break;
			default: o.buf->write_shutdown();
			}
			break;
		case UDPR: o.udpr->read_datagram(urd, sizeof(rd)); break;
		case UDPT: o.udpt->write_datagram(ud, d.size()); break;
		case SERVERC: serve(o); break;
		case CLIENTC: client(o); break;
		case ACCEPTOR:
			if (o.acc->can_accept())
				for (auto &x : objs)
					if (x->conn() && x->kind != CLIENTC) {
						accept(o, *x);
						break;
					}
			break;
		default: break;
		}
	}
	void serve(Obj &o) {
		http::Request req;
		http::WebMessage msg;
		auto &s = *o.srv;
		if (!s.is_open())
			return;
		if (s.read_next(msg))
			s.write(http::WebMessage(http::WebMessageOpcode::TEXT, "reply"));
		else if (s.read_next(req)) {
			if (req.header.is_websocket_upgrade() && g.flag())
				s.web_socket_upgrade();
		}
		if (s.is_open() && s.get_state() == http::ServerConnection::RESPONSE_HEADER && g.flag())
			s.write(http::Response::simple_html(200, std::string(g.len(3000), 'h')));
	}
	void client(Obj &o) {
		auto &s = *o.cli;
		if (!s.is_open())
			return;
		http::Response resp;
		http::WebMessage msg;
		switch (s.get_state()) {
		case http::ClientConnection::WAITING_WRITE_REQUEST:
			if (g.chance(1, 3))
				s.web_socket_upgrade(http::Request("h", "GET", "/ws").header);
			else
				s.write(http::Request("h", "GET", "/a"));
			break;
		case http::ClientConnection::RESPONSE_READY: s.read_next(resp); break;
		case http::ClientConnection::WEB_MESSAGE_READY: s.read_next(msg); break;
		case http::ClientConnection::WEB_MESSAGE_HEADER:
			s.write(g.flag() ? http::WebMessage("text") : http::WebMessage(http::WebMessageOpcode::CLOSE, "", http::WebMessage::CLOSE_STATUS_NORMAL));
			break;
		default: break;
		}
	}
	void act() {
		if (objs.empty() || g.chance(1, 6))
			return create();
		size_t i = g.below(objs.size());
		switch (g.pick({6, 6, 4, 4, 1})) {
		case 0: return arm(*objs[i]);
		case 1: return io(*objs[i]);
		case 2: return disarm(*objs[i]);
		case 3: return destroy(i);
		default: return replace(*objs[i]);
		}
	}
	void acts(size_t n) {
		for (; n && budget > 0; --n, --budget)
			act();
	}
	void drive() {
		acts(g.below(4));
		if (budget > 0)
			driver.once(g.of(std::vector<double>{0, 0.001, 0.1, 20}));
		else
			for (auto &o : objs)  // idle handlers would never let the loop become quiet
				if (o->idle)
					disarm(*o);
	}
	void on(int id, int version) {
		Obj *o = find(id);
		if (!o)
			fail("after-destroy", "handler of a destroyed object (" + std::to_string(id) + ") was called");
		PBT_LOG(c, "> handler of " << NAMES[o->kind] << id << "\n");
		if (version != o->version)
			fail("old-handler", std::string("handler of a ") + NAMES[o->kind] + " was called after another one replaced it");
		if (o->st == Obj::OFF)
			fail("after-cancel", std::string("handler of a ") + NAMES[o->kind] + " was called after it was cancelled, closed or had already reported its end");
		if (o->kind == TIMER || (o->kind == WATCHER && --o->calls == 0))
			o->st = Obj::OFF;
		if (o->kind == TIMER && o->timer->is_set())
			fail("is-set", "is_set() in the timer's own handler");
		if (o->conn()) {
			bool open = o->is_open();
			if (open && o->st == Obj::CLOSING)
				fail("open-after-close", "is_open() in the handler called because of close(true)");
			if (!open)
				o->st = Obj::OFF;
		}
		size_t ready = w.last_wait_events, kills_before = kills;
		++depth;
		if (g.chance(1, 8)) {  // destroys itself first
			for (size_t i = 0; i != objs.size(); ++i)
				if (objs[i]->id == id) {
					destroy(i);
					c.cls("destroyed in its own handler");
					break;
				}
			o = nullptr;
		} else if (g.chance(2, 3))
			io(*o);
		acts(budget > 0 ? g.below(3) : 0);
		if (budget <= 0 && (o = find(id)) && o->kind == IDLE)
			disarm(*o);
		if (ready >= 2 && kills != kills_before)
			multi = true;
		--depth;
	}
	bool multi = false;
	void verdict() {
		for (auto &o : objs)
			if (o->st == Obj::CLOSING)
				fail("close-event-lost", std::string("close(true) of a ") + NAMES[o->kind] + " never called the handler");
	}
};
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	std::cout.rdbuf(nullptr);
	sim::World w(g, c);
	bool multi = false;
	{
		std::unique_ptr<Hist> h(new Hist(g, c, w));
		try {
			h->loop.run();
			h->verdict();
		} catch (const sim::Abort &) {
		} catch (const std::exception &ex) {
			if (h->error.empty())
				h->error_sig = "exception", h->error = std::string("exception out of the loop: ") + ex.what();
		}
		multi = h->multi;
		if (!h->error.empty())
			c.fail(h->error_sig, h->error);
	}
	w.finish();
	if (multi) {
		c.cls("several events ready");
		c.nontrivial();
	}
}
