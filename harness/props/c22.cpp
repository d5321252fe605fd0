#include <crab/crab.hpp>
#include "../sim.hpp"
const char *const PROP_ID   = "C22";
const char *const PROP_RULE =
    "1-2 UDPReceivers and 1-3 UDPTransmitters (to a receiver, to a multicast group or to a port nobody listens on) write datagrams of 0 to 65508 bytes, receivers reply to the sender, foreign hosts send garbage; objects read with "
    "buffers from 0 bytes up, in handlers or later, through both reading interfaces; send buffers hold 1-8 datagrams, delivery is delayed, reordered and refused (asynchronous errors); each call is compared with the system's queue; "
    "non-trivial: a write was refused with would-block or an asynchronous error was reported, and at least 3 datagrams were read";
using namespace crab;
using namespace pbt;
namespace {
struct Hist;
struct Obj {
	Hist *h;
	int id = 0;
	std::unique_ptr<UDPReceiver> rx;
	std::unique_ptr<UDPTransmitter> tx;
	std::shared_ptr<sim::Udp> u;
	Timer later;
	size_t to_send       = 0;
	bool write_blocked   = false;  // last write returned false
	bool read_empty      = true;   // last read returned nothing
	bool in_handler      = false;
	std::vector<Address> reply_to;
	explicit Obj(Hist *h) : h(h), later([this] { pump(); }) {}
	void on_event() { pump(); }
	void pump();
	void write();
	bool read();
	bool can_write() const { return rx ? rx->can_write() : tx->can_write(); }
};
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	std::vector<std::unique_ptr<Obj>> objs;
	size_t reads = 0, foreign = 0, truncated = 0, empty = 0;
	size_t sends = 0;  // datagrams the system accepted during the current write
	sim::Datagram last_sent;
	bool done = false;
	void fail(const char *sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_) {
		w.max_step_ns = g.flag() ? 0 : 500000000LL;
		w.icmp        = g.flag();
		size_t rx = 1 + g.below(2), tx = 1 + g.below(3);
		foreign = g.below(6);
		for (size_t i = 0; i != rx; ++i)
			add();
		for (size_t i = 0; i != rx; ++i) {
			auto o = objs[i].get();
			UDPReceiver::Settings st;
			if (g.chance(1, 4))
				st.rcvbuf_size = 1000, st.sndbuf_size = 1000;
			bool six = g.chance(1, 5);
			o->rx.reset(new UDPReceiver(Address(six ? "::1" : g.chance(1, 5) ? "239.1.1.1" : "127.0.0.1", uint16_t(5000 + i)), [o] { o->on_event(); }, st));
			o->u = w.udps.back();
		}
		for (size_t i = 0; i != tx; ++i) {
			add();
			auto o       = objs.back().get();
			size_t t     = g.below(rx + 1);
			o->to_send   = g.below(12);
			o->tx.reset(new UDPTransmitter(Address(g.chance(1, 5) ? "239.1.1.1" : "127.0.0.1", uint16_t(t == rx ? 6000 : 5000 + t)), [o] { o->on_event(); }));
			o->u = w.udps.back();
			if (g.flag())
				o->later.once(double(g.below(3)) * 0.3);
		}
		w.on_sendto = [this](sim::Udp &, const sim::Datagram &d) {
			++sends;
			last_sent = d;
		};
		w.actions   = [this]() -> size_t { return foreign && !done ? 1 : 0; };
		w.do_action = [this](size_t) {
			--foreign;
			sim::Datagram d;
			d.data = g.blob(size_of());
			d.from = sim::make_addr(0x0A000001, uint16_t(7000 + g.below(3)));
			if (g.flag() || objs.back()->rx)
				d.to = objs[0]->u->local;
			else
				d.to = objs.back()->u->local, d.from = objs.back()->u->remote;
			w.udp_net.push_back(d);
			w.udp_senders.emplace_back();
		};
		w.on_quiet = [this](int) {
			if (!w.quiet_for(100))
				return false;
			done = true;
			loop.cancel();
			return true;
		};
	}
	void add() {
		objs.emplace_back(new Obj(this));
		objs.back()->id = int(objs.size()) - 1;
	}
	size_t size_of() {
		switch (g.pick({4, 2, 2, 1, 1})) {
		case 0: return g.below(40);
		case 1: return 0;
		case 2: return g.below(1500);
		case 3: return 65507 - g.below(3);
		default: return 1;
		}
	}
	void verdict() {
		for (auto &o : objs) {
			if (o->write_blocked)
				fail("write-stall", "object " + std::to_string(o->id) + " was refused a write and never told that it can write again");
			if (o->to_send || !o->reply_to.empty())
				fail("write-stall", "object " + std::to_string(o->id) + " was never told that it can write");
			if (!o->u->rq.empty())
				fail("read-stall", "object " + std::to_string(o->id) + " has " + std::to_string(o->u->rq.size()) + " datagrams to read but was never told so");
		}
	}
};
void Obj::write() {
	auto &g     = h->g;
	size_t n    = h->size_of();
	bool huge   = g.chance(1, 15);
	if (huge)
		n = 65508 + g.below(3000);
	std::string d = g.blob(n);
	if (n && n <= 8)
		d = g.str(n, "abcdefgh");
	bool had      = can_write();
	int err       = u->err;
	size_t eagain = h->w.eagain_sends;
	h->sends      = 0;
	bool r;
	Address to;
	if (rx) {
		to = reply_to.back();
		r  = rx->write_datagram(reinterpret_cast<const uint8_t *>(d.data()), d.size(), to);
	} else
		r = tx->write_datagram(reinterpret_cast<const uint8_t *>(d.data()), d.size());
	PBT_LOG(h->c, "object " << id << " writes " << n << " bytes: " << r << (err ? " (error pending)" : "") << "\n");
	bool refused = h->w.eagain_sends != eagain;
	if (!r) {
		if (h->sends)
			h->fail("sent-twice", "write_datagram() returned false but the datagram was sent");
		if (had && !refused)
			h->fail("refused", "write_datagram() returned false though the system did not refuse");
		if (can_write())
			h->fail("can-write", "can_write() is true after write_datagram() returned false");
		write_blocked = true;
		h->c.cls("would block on write");
		return;
	}
	write_blocked = false;
	if (!had)
		h->fail("can-write", "can_write() was false but write_datagram() succeeded");
	if (refused)
		h->fail("refused", "write_datagram() returned true though the system refused the datagram");
	if (rx)
		reply_to.pop_back();
	else
		--to_send;
	if (huge || err) {
		if (h->sends)
			h->fail("sent-twice", "a datagram was sent after an error");
		return;
	}
	if (h->sends != 1)
		h->fail("sent-twice", "write_datagram() sent " + std::to_string(h->sends) + " datagrams");
	if (h->last_sent.data != d)
		h->fail("corrupt", "the datagram sent (" + std::to_string(h->last_sent.data.size()) + " bytes) differs from the one written (" + std::to_string(n) + " bytes)");
	if (rx && sim::port_of(h->last_sent.to) != to.get_port())
		h->fail("wrong-destination", "reply sent to port " + std::to_string(sim::port_of(h->last_sent.to)) + " instead of " + std::to_string(to.get_port()));
	if (tx && memcmp(&h->last_sent.to, &u->remote, sizeof(sockaddr_in)))
		h->fail("wrong-destination", "datagram not sent to the transmitter's address");
}
bool Obj::read() {
	auto &g = h->g;
	static uint8_t big[65600];
	static UDPReceiver::DatagramBuffer *db = new UDPReceiver::DatagramBuffer[4];
	sim::Datagram front;
	size_t queued = u->rq.size(), got = 1;
	std::vector<sim::Datagram> fronts(u->rq.begin(), u->rq.begin() + std::min<size_t>(queued, 4));
	if (queued)
		front = u->rq.front();
	Address from;
	bool with_addr = g.flag();
	optional<size_t> r;
	const uint8_t *data = big;
	size_t cap;
	bool batch = rx && g.chance(1, 4);
	if (batch) {
		if (g.chance(1, 8) && rx->read_datagrams(db, 0) != 0)
			h->fail("batch", "read_datagrams() into no buffer returned datagrams");
		cap      = UDPReceiver::MAX_DATAGRAM_SIZE;
		size_t m = 1 + g.below(4), k = rx->read_datagrams(db, m);
		data     = db->data;
		if (k > m)
			h->fail("batch", "read_datagrams() returned more than there are buffers");
		if (k)
			r = db->count, from = db->peer_addr, with_addr = true, got = k;
		for (size_t i = 1; i < k; ++i) {  // the first one is checked below
			if (i >= fronts.size() || db[i].count != std::min(cap, fronts[i].data.size()) || memcmp(db[i].data, fronts[i].data.data(), db[i].count))
				h->fail("batch", "datagram " + std::to_string(i) + " read by read_datagrams() differs from the one received");
			if (memcmp(db[i].peer_addr.impl_get_sockaddr(), &fronts[i].from, sizeof(sockaddr_in)))
				h->fail("wrong-sender", "sender's address of datagram " + std::to_string(i) + " is " + db[i].peer_addr.to_string());
		}
	} else {
		cap = g.pick({3, 2, 1, 1}) == 0 ? sizeof(big) : g.len(1500);
		memset(big, 0xEE, std::min<size_t>(cap + 16, sizeof(big)));
		r = rx ? rx->read_datagram(big, cap, with_addr ? &from : nullptr) : tx->read_datagram(big, cap, with_addr ? &from : nullptr);
	}
	PBT_LOG(h->c, "object " << id << " reads up to " << cap << ": " << (r ? std::to_string(*r) : "nothing") << "\n");
	if (!r) {
		if (u->rq.size() != queued)
			h->fail("lost", "read_datagram() returned nothing but took a datagram from the system");
		read_empty = true;
		return false;
	}
	read_empty = false;
	if (u->rq.size() + got != queued)
		h->fail("lost", "read_datagram() returned " + std::to_string(got) + " datagrams but took " + std::to_string(queued - u->rq.size()) + " from the system");
	size_t want = std::min(cap, front.data.size());
	if (*r != want)
		h->fail("boundary", "read_datagram() returned " + std::to_string(*r) + " for a datagram of " + std::to_string(front.data.size()) + " bytes read into " + std::to_string(cap));
	if (memcmp(data, front.data.data(), want))
		h->fail("corrupt", "datagram read differs from the one received");
	if (!batch)
		for (size_t i = cap; i != std::min<size_t>(cap + 16, sizeof(big)); ++i)
			if (big[i] != 0xEE)
				h->fail("overflow", "read_datagram() wrote past the end of the buffer");
	if (with_addr) {
		if (memcmp(from.impl_get_sockaddr(), &front.from, sizeof(sockaddr_in)))
			h->fail("wrong-sender", "sender's address is " + from.to_string());
	}
	h->reads += got;
	if (front.data.empty())
		h->c.cls("empty datagram");
	if (front.data.size() > cap)
		h->c.cls("truncated datagram");
	if (with_addr && rx && reply_to.size() < 4 && g.flag() && front.from.ss_family == AF_INET)
		reply_to.push_back(from);
	return true;
}
void Obj::pump() {
	auto &g = h->g;
	later.cancel();
	bool more_read = true;
	// like an application: reads and writes until refused, or stops and continues later
	while (true) {
		bool can_w = (to_send || !reply_to.empty()) && can_write();
		if (!more_read && !can_w)
			return;
		if (g.chance(1, 6)) {
			later.once(double(g.below(4)) * 0.2);
			return;
		}
		if (can_w && (!more_read || g.flag()))
			write();
		else if (more_read)
			more_read = read();
	}
}
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	sim::World w(g, c);
	bool nt = false;
	std::string sig, err;
	{
		Hist h(g, c, w);
		try {
			h.loop.run();
			h.verdict();
		} catch (const sim::Abort &) {
		}
		sig = h.error_sig, err = h.error;
		nt = (w.eagain_sends || w.icmp_errors) && h.reads >= 3;
		if (w.icmp_errors)
			c.cls("asynchronous error");
		if (h.reads)
			c.cls("datagrams read");
	}
	if (!err.empty())
		c.fail(sig, err);
	w.finish();
	if (nt)
		c.nontrivial();
}
