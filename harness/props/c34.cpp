// C34: a TLS connection is a byte stream. Built with CRAB_TLS; the server side is OpenSSL.
#include <crab/crab.hpp>
#include <list>
#include "../ref/tls_peer.hpp"
#include "../sim.hpp"
const char *const PROP_ID   = "C34";
const char *const PROP_RULE =
    "1-3 client sockets over TLS 1.2 and 1.3, both sides send 0-200000 bytes in pieces of generated sizes; the client reads in the handler or later, by one piece or until nothing is left, the server stops taking data for a while and "
    "changes keys; the server ends by staying, close_notify, FIN, both or a reset, the client by staying, write_shutdown or close; non-trivial: at least 20000 bytes went in one direction, or the server ended the connection after sending";
using namespace crab;
using namespace pbt;
namespace {
struct Hist;
struct Conn {
	Hist *h;
	int id = 0;
	std::unique_ptr<TCPSocketTLS> sock;
	Timer later;
	sim::EndP raw;
	std::unique_ptr<tls::Server> srv;
	std::string out, back;                 // what each side wants to send
	size_t written = 0, srv_written = 0;   // how much was accepted
	std::string got;                       // by the client
	size_t srv_checked = 0;
	int cend = 0, send = 0;                // 0 stays; client: 1 write_shutdown 2 close; server: 1 close_notify 2 FIN 3 both 4 reset 5 close as an application does
	bool late = false, greedy = true, client_ended = false, server_ended = false, told = false, connected = false, blocked = false, slow_server = false;
	size_t piece = 0;
	explicit Conn(Hist *h) : h(h), later([this] { pump(); }) {}
	void pump();
	void on_event();
	bool read_once();
	bool write_once();
	void server();
	bool server_can() const { return raw && !server_ended && srv->ready() && !srv->failed && !raw->dead && (srv_written != back.size() ? raw->wire.size() < 300000 : send != 0); }
	std::string name() const { return "connection " + std::to_string(id); }
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	std::list<Conn> conns;
	int phase = 0;
	bool nt   = false;
	void fail(const std::string &sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_) {
		w.max_step_ns = g.flag() ? 0 : 100000000LL;
		w.on_connect  = [this](const sockaddr_storage &a, sim::EndP raw) {
			for (auto &x : conns)
				if (sim::port_of(a) == 443 + x.id) {
					x.raw    = raw;
					raw->raw = raw->nonblock = true;
					if (g.chance(1, 3)) {
						raw->sndbuf = 100 + g.len(20000);
						if (auto p = raw->peer)
							p->sndbuf = 100 + g.len(20000), p->rcvbuf = 100 + g.len(20000);
					}
				}
			return 0;
		};
		w.after_event = [this] {
			for (auto &x : conns)
				x.server();
		};
		w.actions = [this] {
			size_t n = 0;
			for (auto &x : conns)
				n += x.server_can();
			return n;
		};
		w.do_action = [](size_t) {};  // after_event does it
		size_t n = g.pick({3, 1, 1}) + 1;
		for (size_t i = 0; i != n; ++i) {
			conns.emplace_back(this);
			Conn &x  = conns.back();
			x.id     = int(i);
			x.out    = text(0);
			x.back   = text(1);
			x.cend   = int(g.pick({3, 2, 1}));
			x.send   = int(g.pick({3, 1, 2, 2, 1, 1}));
			x.late   = g.chance(1, 3);
			x.greedy = !g.chance(1, 3);
			x.piece  = 1 + g.len(g.flag() ? 100 : 70000);
			if (x.piece < 50)
				x.out.resize(std::min<size_t>(x.out.size(), 3000)), x.back.resize(std::min<size_t>(x.back.size(), 3000));
			x.slow_server = g.chance(1, 4);
			x.srv.reset(new tls::Server(g.chance(1, 3) ? tls::GOOD_TLS12 : tls::GOOD));
			x.sock.reset(new TCPSocketTLS([&x] { x.on_event(); }));
			PBT_LOG(c, x.name() << ": client sends " << x.out.size() << " end " << x.cend << ", server sends " << x.back.size() << " end " << x.send << " piece " << x.piece << (x.late ? " late" : "") << (x.greedy ? " greedy" : "") << "\n");
			if (!x.sock->connect_tls(Address("10.9.0.1", uint16_t(443 + x.id)), "h0.example.org"))
				fail("connect", "connect_tls() failed");
			x.connected = true;
			if (g.flag())
				x.pump();
			else if (!x.out.empty())
				x.blocked = true;  // waits for the event
		}
		w.on_quiet = [this](int) {
			bool did = false;
			for (auto &x : conns)
				if (x.raw && x.raw->paused) {
					x.raw->paused = false;
					did           = true;
				}
			if (did)
				return true;
			if (!w.quiet_for(60))
				return false;
			for (auto &x : conns)
				verdict(x);
			loop.cancel();
			return true;
		};
	}
	std::string text(int salt) {
		size_t n = g.pick({2, 3, 3, 1});
		n        = n == 0 ? g.below(30) : n == 1 ? g.below(3000) : n == 2 ? g.below(40000) : 60000 + g.below(140000);
		std::string s(n, ' ');
		uint32_t v = uint32_t(g.below(1000)) * 2 + uint32_t(salt);
		for (auto &ch : s)
			v = v * 1664525 + 1013904223, ch = char(v >> 24);
		return s;
	}
	void verdict(Conn &x) {
		bool client_closed = x.client_ended && x.cend == 2;
		if (x.got.size() >= 20000 || x.srv->got.size() >= 20000 || (x.server_ended && x.srv_written))
			nt = true;
		if (!x.sock->is_open() && !x.told && !client_closed)
			fail("not-told", x.name() + ": handler was not called after the connection was closed");
		if (client_closed)
			return;  // both directions are only prefixes now
		if (x.server_ended) {
			if (x.sock->is_open())
				fail("not-told", x.name() + ": the server ended the connection but it is still open");
			if (x.send != 4 && x.send != 5 && x.got != x.back)
				fail("lost", x.name() + ": got " + std::to_string(x.got.size()) + " of " + std::to_string(x.back.size()) + " bytes before the end of the connection");
			return;
		}
		if (x.told || !x.sock->is_open()) {
			if (x.client_ended && x.srv->closed)
				return;
			fail("closed", x.name() + " was closed, though neither side wanted that");
		}
		if (x.srv->failed)
			fail("protocol", x.name() + ": the server found an error in the stream");
		if (x.written != x.out.size())
			fail("stall", x.name() + ": client wrote " + std::to_string(x.written) + " of " + std::to_string(x.out.size()) + " bytes and is not told that it can continue");
		if (x.srv->got.size() != x.written)
			fail("stall", x.name() + ": server received " + std::to_string(x.srv->got.size()) + " of " + std::to_string(x.written) + " bytes");
		if (x.got.size() != x.srv_written || x.srv_written != x.back.size())
			fail("stall", x.name() + ": client received " + std::to_string(x.got.size()) + " of " + std::to_string(x.back.size()) + " bytes");
		if (x.client_ended && x.cend == 1 && !x.srv->closed)
			fail("no-close", x.name() + ": server did not get the end of stream");
	}
};
void Conn::server() {
	auto &g = h->g;
	if (!raw || server_ended)
		return;
	std::string d = raw->take();
	if (!d.empty())
		srv->feed(d);
	std::string &sg = srv->got;
	if (sg.size() > written || sg.compare(srv_checked, std::string::npos, out, srv_checked, sg.size() - srv_checked))
		h->fail("corrupt", name() + ": what the server received differs from what was written");
	srv_checked = sg.size();
	if (slow_server && !raw->paused && g.chance(1, 10))
		raw->paused = true;
	while (srv_written != back.size() && raw->wire.size() < 300000) {
		size_t n = srv->write(back.substr(srv_written, 1 + g.below(g.flag() ? 20000 : 300)));
		srv_written += n;
		if (!n)
			break;
		if (g.chance(1, 30))
			srv->key_update(g.flag());
		if (g.chance(1, 3))
			break;
	}
	raw->send(srv->take());
	if (send && srv->ready() && srv_written == back.size() && g.chance(1, 2)) {
		h->c.cls("server ends");
		PBT_LOG(h->c, name() << ": server ends " << send << "\n");
		if (send == 1 || send == 3) {
			srv->close_notify();
			raw->send(srv->take());
		}
		if (send == 2 || send == 3)
			raw->fin();
		if (send == 4)
			raw->rst();
		if (send == 5)
			raw->app_close();
		server_ended = true;
	}
}
bool Conn::read_once() {
	auto &g = h->g;
	std::string b(1 + g.below(g.flag() ? piece : 16), '\xEE');
	size_t cap = b.size();
	b.append(16, '\xEE');
	size_t n = sock->read_some(reinterpret_cast<uint8_t *>(&b[0]), cap);
	if (n > cap || b.substr(cap) != std::string(16, '\xEE'))
		h->fail("overflow", name() + ": read_some() wrote past the end");
	if (got.size() + n > srv_written || back.compare(got.size(), n, b, 0, n))
		h->fail("corrupt", name() + ": what the client received differs from what was sent");
	got.append(b, 0, n);
	h->w.last_activity_ns = h->w.now_ns;
	return n != 0;
}
bool Conn::write_once() {
	auto &g  = h->g;
	size_t n = std::min(out.size() - written, 1 + size_t(g.below(piece)));
	bool can = sock->can_write(), open = sock->is_open();
	// a separate buffer each time: the library must not keep pointers
	std::string b = out.substr(written, n);
	size_t r      = sock->write_some(reinterpret_cast<const uint8_t *>(b.data()), b.size());
	if (r > n)
		h->fail("write-count", name() + ": write_some() accepted more than given");
	if (r && (!can || !open))
		h->fail("write-count", name() + ": write_some() accepted data, though can_write() was false");
	written += r;
	blocked = written != out.size();
	return r != 0;
}
void Conn::on_event() {
	if (!sock->is_open()) {
		if (client_ended && cend == 2)
			h->fail("event", name() + ": handler called after close()");
		if (told)
			h->fail("event", name() + ": handler called twice after the connection was closed");
		told = true;
		if (got.size() != back.size() && server_ended && send != 4 && send != 5 && !client_ended)
			h->fail("lost", name() + ": got " + std::to_string(got.size()) + " of " + std::to_string(back.size()) + " bytes before the end of the connection");
		return;
	}
	pump();
}
void Conn::pump() {
	auto &g = h->g;
	if (told || (client_ended && cend == 2))
		return;
	later.cancel();
	bool r = true, wr = written != out.size();
	while (r || wr) {
		if (g.chance(1, late ? 4 : 20)) {
			later.once(double(g.below(4)) * 0.2);
			return;
		}
		if (wr && (!r || g.flag()))
			wr = write_once() && written != out.size();
		else if (r) {
			r = read_once();
			if (r && !greedy && g.flag()) {
				later.once(0.05);
				r = false;
			}
		}
	}
	if (written == out.size() && cend && !client_ended && connected && g.chance(1, 2) && (cend == 2 || (srv->ready() && (written || !got.empty() || srv->tls13())))) {  // write_shutdown() does nothing before the client's own handshake is done
		client_ended = true;
		PBT_LOG(h->c, name() << ": client ends " << cend << "\n");
		h->c.cls(cend == 1 ? "client shuts down" : "client closes");
		if (cend == 1)
			sock->write_shutdown();
		else {
			sock->close();
			later.cancel();
		}
	}
}
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	tls::Pki::get();
	tls::seed(1 + g.below(1000));
	sim::World w(g, c);
	bool nt = false;
	std::string sig, err;
	{
		Hist h(g, c, w);
		try {
			if (h.error.empty())
				h.loop.run();
		} catch (const sim::Abort &) {
		}
		sig = h.error_sig, err = h.error;
		nt = h.nt;
		if (w.eagain_sends)
			c.cls("socket buffer full");
		for (auto &x : h.conns) {
			if (x.got.size() > 65536)
				c.cls("more than the buffer received");
			if (x.srv->got.size() > 65536)
				c.cls("more than the buffer sent");
			if (x.server_ended && x.got.size())
				c.cls("data, then end by the server");
		}
	}
	if (!err.empty())
		c.fail(sig, err);
	w.finish();
	if (nt)
		c.nontrivial();
}
