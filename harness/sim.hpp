// Simulated kernel: sockets, edge-triggered epoll, eventfd and the steady clock, all inside the
// process and driven by the case's choice stream. The library's calls reach it through -Wl,--wrap.
// Single threaded (only eventfd_write may come from another thread). Include in one source only.
#pragma once
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <netdb.h>
#include <pthread.h>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>
#include "pbt.hpp"

namespace sim {

struct Abort {};  // not a std::exception: travels through the library's catch clauses

struct Bytes {  // byte queue
	std::string s;
	size_t off = 0;
	size_t size() const { return s.size() - off; }
	bool empty() const { return size() == 0; }
	void push(const char *p, size_t n) { s.append(p, n); }
	std::string pop(size_t n) {
		n = std::min(n, size());
		std::string r(s, off, n);
		off += n;
		if (off > 65536 || off == s.size())
			s.erase(0, off), off = 0;
		return r;
	}
	void clear() { s.clear(), off = 0; }
};

struct World;
struct File {
	enum Kind { EPOLL, EVENTFD, NEWSOCK, LISTEN, TCP, UDP } kind;
	int fd        = -1;
	bool nonblock = false;
	explicit File(Kind k) : kind(k) {}
	virtual ~File() {}
	virtual uint32_t poll() { return 0; }
	// epoll registrations of this file
	struct Reg {
		struct Epoll *ep;
		uint32_t events;
		epoll_data_t data;
		bool queued = false;
	};
	std::vector<Reg> regs;
	void wake();
};
using FileP = std::shared_ptr<File>;
struct Epoll : File {
	Epoll() : File(EPOLL) {}
	std::deque<File *> ready;
};
struct EventFd : File {
	uint64_t value = 0;
	EventFd() : File(EVENTFD) {}
	uint32_t poll() override { return value ? EPOLLIN | EPOLLOUT : EPOLLOUT; }
};
// One end of a TCP connection; fd < 0 with raw == true is an end held by the harness
struct End : File {
	World *w;
	bool raw = false;
	enum State { CONNECTING, OPEN } state = OPEN;
	std::weak_ptr<End> self;
	std::shared_ptr<End> peer;  // cycle broken by World
	Bytes rq;                   // received, not yet read
	bool rfin = false;          // end of stream received
	int err   = 0;              // pending socket error
	bool dead = false;          // reset by peer or failed
	Bytes wire;                 // sent, not yet arrived
	bool wshut = false, fin_arrived = false, rst_pending = false, orphan = false;
	bool nospace = false;
	bool paused  = false;  // raw end that does not take data
	bool stuck   = false;  // nothing this end sent arrives any more (until released)
	size_t sndbuf = 1 << 16, rcvbuf = 1 << 16;
	int connect_result = 0;
	int rst_errno      = ECONNRESET;  // what the peer gets instead
	sockaddr_storage local = {}, remote = {};
	uint64_t sent_total = 0, arrived_total = 0;
	int eof_reads = 0, reads = 0;  // reads == calls of recv by the library
	bool close_with_unread = false;
	End(World *w) : File(TCP), w(w) {}
	bool writable() const { return wire.size() <= sndbuf * 2 / 3 && wire.size() < sndbuf; }
	uint32_t poll() override {
		if (state == CONNECTING)
			return 0;
		uint32_t m = 0;
		if (rfin || !rq.empty() || dead)
			m |= EPOLLIN;
		if (writable() || wshut || dead)
			m |= EPOLLOUT;
		else
			nospace = true;
		if (err)
			m |= EPOLLERR;
		if (dead || (rfin && wshut))
			m |= EPOLLHUP;
		return m;
	}
	bool deliverable() const {
		if (state == CONNECTING || stuck)
			return false;
		if (rst_pending)
			return true;
		if (!wire.empty())
			return peer && !(peer->raw && peer->paused) && (peer->raw || peer->orphan || peer->dead || peer->rq.size() < peer->rcvbuf);
		return wshut && !fin_arrived && peer;
	}
	// harness side operations for raw ends
	void send(const std::string &s) {
		if (!wshut && !dead)
			wire.push(s.data(), s.size()), sent_total += s.size();
	}
	void fin() { wshut = true; }
	void rst() {
		rst_pending = true;
		orphan      = true;
		wire.clear();
		rq.clear();
	}
	// full close as an application does: unread data turns it into a reset
	void app_close() {
		orphan = true;
		if (!rq.empty()) {
			close_with_unread = true;
			rst_pending       = true;
			wire.clear();
			rq.clear();
		} else
			wshut = true;
	}
	std::string take() { return rq.pop(rq.size()); }
	bool gone() const { return rfin || dead; }
};
using EndP = std::shared_ptr<End>;
struct Listen : File {
	std::deque<EndP> backlog;
	sockaddr_storage local = {};
	Listen() : File(LISTEN) {}
	uint32_t poll() override { return backlog.empty() ? 0 : EPOLLIN; }
};
struct Datagram {
	std::string data;
	sockaddr_storage from = {}, to = {};
};
struct Udp : File {
	sockaddr_storage local = {}, remote = {};
	bool connected = false;
	std::deque<Datagram> rq;
	int err        = 0;
	size_t inflight = 0, sndlimit = 8;
	bool nospace = false;
	Udp() : File(UDP) {}
	uint32_t poll() override {
		uint32_t m = 0;
		if (!rq.empty())
			m |= EPOLLIN;
		if (inflight < sndlimit)
			m |= EPOLLOUT;
		else
			nospace = true;
		if (err)
			m |= EPOLLERR;
		return m;
	}
};
struct NewSock : File {
	int type, family;
	sockaddr_storage local = {};
	NewSock(int type, int family) : File(NEWSOCK), type(type), family(family) {}
};

inline int port_of(const sockaddr_storage &a) {
	if (a.ss_family == AF_INET)
		return ntohs(reinterpret_cast<const sockaddr_in &>(a).sin_port);
	if (a.ss_family == AF_INET6)
		return ntohs(reinterpret_cast<const sockaddr_in6 &>(a).sin6_port);
	return 0;
}
inline sockaddr_storage make_addr(uint32_t ip, uint16_t port) {
	sockaddr_storage a = {};
	auto &s            = reinterpret_cast<sockaddr_in &>(a);
	s.sin_family       = AF_INET;
	s.sin_port         = htons(port);
	s.sin_addr.s_addr  = htonl(ip);
	return a;
}

struct World {
	static constexpr int BASE = 1000;
	pbt::Gen &g;
	pbt::Ctx &c;
	int64_t now_ns = 1000000000000LL, last_activity_ns = now_ns;
	int64_t wall_offset = 1700000000000000000LL;  // the wall clock is this far ahead of the monotonic one
	int64_t wall_ns() const { return now_ns + wall_offset; }
	std::map<int, FileP> files;
	std::vector<EndP> ends;      // every TCP end ever made, open or not
	std::deque<Datagram> udp_net;
	std::vector<std::shared_ptr<Udp>> udps;
	std::vector<std::weak_ptr<Udp>> udp_senders;
	std::string violation;  // misuse of the system interface
	// knobs
	unsigned eintr_pct = 3, partial_pct = 10, instant_connect_pct = 20;
	size_t fd_limit = 1000000;
	int64_t max_step_ns = 0;  // time that may pass with every network activity
	int64_t late_ns     = 0;  // a timed out wait may return this much later
	uint64_t max_waits = 20000, max_calls = 2000000;
	unsigned burst = 3;           // up to burst-1 activities before each wait
	size_t last_wait_events = 0;  // events returned by the last wait
	// counters
	uint64_t waits = 0, calls = 0, activities = 0, eagain_sends = 0, partial_sends = 0, wait_timeouts = 0;
	// harness actions: returns number of actions possible now; do_action(i) performs one
	std::function<size_t()> actions;
	std::function<void(size_t)> do_action;
	// called when nothing more can happen except time passing. Return true if something was done
	std::function<bool(int timeout_ms)> on_quiet;
	std::function<void()> on_wait;      // called at each epoll_wait
	std::function<void()> after_event;  // after each network activity
	std::function<int(const sockaddr_storage &, EndP)> on_connect;  // outgoing connect: 0 ok, else errno. May replace the peer
	std::vector<int> accept_faults;                                  // errno values returned by the next accepts (0 none)
	std::function<int()> accept_fault;
	std::function<int()> send_fault;  // errno injected into send, 0 none
	uint16_t next_port = 40000;
	pthread_t main_thread = pthread_self();
	// Name resolution: the library's resolver thread runs freely between two system resolver calls, in which it is held until the case
	// decides (as one of the activities) that the answer arrives. dns_answer fills numeric addresses, returns 0 or EAI_*
	std::function<int(const std::string &host, int family, std::vector<std::string> &ips)> dns_answer;
	size_t dns_answers = 0;
	bool in_wait = false;

	World(pbt::Gen &g, pbt::Ctx &c);
	~World();

	void bad(const std::string &what) {
		if (violation.empty())
			violation = what;
	}
	void die(const std::string &what) {
		bad(what);
		throw Abort{};
	}
	void count() {
		if (++calls > max_calls)
			die("spin: too many system calls without the history ending");
	}
	int add(FileP f) {
		int fd = BASE;
		while (files.count(fd))
			++fd;
		f->fd     = fd;
		files[fd] = f;
		return fd;
	}
	bool full() const { return files.size() >= fd_limit; }
	FileP get(int fd) {
		auto it = files.find(fd);
		if (it == files.end()) {
			bad("system call on descriptor " + std::to_string(fd) + " which is not open");
			return nullptr;
		}
		return it->second;
	}
	template<class T>
	std::shared_ptr<T> as(int fd, File::Kind k) {
		auto f = get(fd);
		if (f && f->kind != k) {
			bad("system call on a descriptor of the wrong kind");
			return nullptr;
		}
		return std::static_pointer_cast<T>(f);
	}
	EndP new_end() {
		auto e  = std::make_shared<End>(this);
		e->self = e;
		ends.push_back(e);
		return e;
	}
	size_t open_sockets() const {
		size_t n = 0;
		for (auto &f : files)
			n += f.second->kind == File::TCP || f.second->kind == File::UDP || f.second->kind == File::LISTEN || f.second->kind == File::NEWSOCK;
		return n;
	}
	std::shared_ptr<Listen> listener(int port) {
		for (auto &f : files)
			if (f.second->kind == File::LISTEN && port_of(static_cast<Listen &>(*f.second).local) == port)
				return std::static_pointer_cast<Listen>(f.second);
		return nullptr;
	}
	// raw client connects to a listening port of the library
	EndP connect_raw(int port) {
		auto l = listener(port);
		if (!l)
			return nullptr;
		auto a = new_end(), b = new_end();
		a->raw = true;
		a->peer = b, b->peer = a;
		a->local = make_addr(0x0A000001 + uint32_t(ends.size()), next_port++);
		a->remote = b->local = l->local;
		b->remote            = a->local;
		a->nonblock          = true;
		l->backlog.push_back(b);
		l->wake();
		return a;
	}
	// deliver up to n bytes of what e sent; or its reset or fin
	void deliver(End &e, size_t n) {
		auto p = e.peer;
		if (e.rst_pending) {
			e.rst_pending = false;
			e.wire.clear();
			if (!p->orphan && !p->dead) {
				p->err  = e.rst_errno;
				p->dead = true;
				p->wire.clear();
				p->wake();
			}
			return;
		}
		if (!e.wire.empty()) {
			std::string d = e.wire.pop(n);
			e.arrived_total += d.size();
			if (p->orphan || p->dead) {  // nobody there: a reset comes back
				if (p->orphan && !p->dead && !p->rst_pending && !e.orphan)
					p->rst_pending = true, p->stuck = false;
			} else {
				p->rq.push(d.data(), d.size());
				p->wake();
			}
			if (e.nospace && e.writable()) {
				e.nospace = false;
				e.wake();
			}
			if (!e.wire.empty() || !e.wshut || e.fin_arrived || e.rst_pending || !g.chance(1, 3))
				return;  // otherwise FIN comes in the last segment
		}
		e.fin_arrived = true;
		if (!p->orphan && !p->dead) {
			p->rfin = true;
			p->wake();
		}
	}
	// one random network event or harness action; false if there is none
	bool activity() {
		std::vector<End *> d, conn;
		for (auto &e : ends) {
			if (e->state == End::CONNECTING)
				conn.push_back(e.get());
			else if (e->deliverable())
				d.push_back(e.get());
		}
		size_t acts = actions ? actions() : 0;
		size_t n    = d.size() + conn.size() + udp_net.size() + acts;
		bool dns    = dns_answer && dns_pending();
		if (!n && !dns)
			return false;
		++activities;
		last_activity_ns = now_ns;
		size_t i = g.below(n + (dns ? 1 : 0));
		if (max_step_ns && g.chance(1, 3))
			now_ns += int64_t(g.below(uint64_t(max_step_ns)));
		if (i == n) {
			dns_deliver();
		} else if (i < d.size()) {
			size_t sz = d[i]->wire.size(), k = sz;
			if (sz > 1)
				switch (g.pick({4, 2, 2})) {
				case 0: break;
				case 1: k = 1 + g.below(std::min<size_t>(sz, 16)); break;
				default: k = 1 + g.below(sz);
				}
			deliver(*d[i], k);
		} else if ((i -= d.size()) < conn.size()) {
			finish_connect(*conn[i]);
		} else if ((i -= conn.size()) < udp_net.size()) {
			deliver_udp(i);
		} else
			do_action(i - udp_net.size());
		if (after_event)
			after_event();
		return true;
	}
	void finish_connect(End &e) {
		e.state = End::OPEN;
		if (e.connect_result) {
			e.err  = e.connect_result;
			e.dead = true;
		}
		e.wake();
		if (!e.connect_result && !e.peer->raw && e.peer->fd < 0 && !e.peer->orphan) {
			auto l = listener(port_of(e.remote));
			if (!l) {
				e.err  = ECONNREFUSED;
				e.dead = true;
			} else {
				l->backlog.push_back(e.peer);
				l->wake();
			}
		}
	}
	void deliver_udp(size_t i) {
		Datagram d = udp_net[i];
		udp_net.erase(udp_net.begin() + long(i));
		std::shared_ptr<Udp> s;
		bool received = false;
		if (i < udp_senders.size()) {
			s = udp_senders[i].lock();
			udp_senders.erase(udp_senders.begin() + long(i));
			if (s) {
				--s->inflight;
				if (s->nospace && s->inflight <= s->sndlimit / 2) {
					s->nospace = false;
					s->wake();
				}
			}
		}
		for (auto &f : files)
			if (f.second->kind == File::UDP) {
				auto &u = static_cast<Udp &>(*f.second);
				if (port_of(u.local) == port_of(d.to) && (!u.connected || port_of(u.remote) == port_of(d.from))) {
					u.rq.push_back(d);
					u.wake();
					received = true;
				}
			}
		if (!received && icmp && s && s->connected && s->fd >= 0) {
			s->err = ECONNREFUSED;
			s->wake();
			++icmp_errors;
		}
		if (on_datagram)
			on_datagram(d);
	}
	std::vector<uint32_t> last_events;  // of the last wait
	std::function<void(int kind, int fd, size_t asked, ssize_t result)> on_io;  // a call of the library returns: 0 TCP recv, 1 TCP send, 2 UDP recv, 3 UDP send, 4 wait
	std::function<void(const Datagram &)> on_datagram;       // arrived
	std::function<void(Udp &, const Datagram &)> on_sendto;  // accepted by the system
	bool icmp          = false;  // a connected sender learns that nobody listens
	size_t icmp_errors = 0;
	// nothing but time passed for so long
	bool quiet_for(int64_t seconds) const { return now_ns - last_activity_ns > seconds * 1000000000LL; }

	int wait(Epoll &ep, epoll_event *evs, int max, int timeout) {
		if (++waits > max_waits)
			die("spin: the loop polled " + std::to_string(max_waits) + " times without the history ending");
		count();
		if (on_wait)
			on_wait();
		if (eintr_pct && g.below(100) >= 100 - eintr_pct) {
			errno = EINTR;
			return -1;
		}
		for (size_t k = g.below(burst); k--;)
			if (!activity())
				break;
		if (!max_step_ns) {
		} else if (g.chance(1, 8))
			now_ns += int64_t(g.below(uint64_t(max_step_ns)));
		int64_t until = now_ns + int64_t(timeout) * 1000000;
		uint64_t spins = 0;
		while (true) {
			int n = collect(ep, evs, max);
			if (n || timeout == 0)
				return n;
			if (timeout > 0 && now_ns >= until)
				return 0;
			if (activity())
				continue;
			if (++spins > 1000)
				die("harness: on_quiet does not progress");
			if (on_quiet && on_quiet(timeout))
				continue;
			if (timeout < 0)
				die("the loop waits for ever");
			++wait_timeouts;
			now_ns = until;
			if (late_ns)
				now_ns += int64_t(g.below(uint64_t(late_ns) + 1));
			return 0;
		}
	}
	int collect(Epoll &ep, epoll_event *evs, int max) {
		int n = 0;
		std::deque<File *> again;
		while (!ep.ready.empty() && n < max) {
			File *f = ep.ready.front();
			ep.ready.pop_front();
			for (auto &r : f->regs)
				if (r.ep == &ep) {
					r.queued   = false;
					uint32_t m = f->poll() & (r.events | EPOLLERR | EPOLLHUP);
					if (m) {
						evs[n].events = m;
						evs[n].data   = r.data;
						++n;
						if (!(r.events & EPOLLET))
							r.queued = true, again.push_back(f);
					}
					break;
				}
		}
		for (auto f : again)
			ep.ready.push_back(f);
		last_wait_events = size_t(n);
		return n;
	}
	bool dns_pending();
	void dns_deliver();
	void dns_idle();  // answers everything, until the resolver thread has nothing to do
	void foreign_write(int fd) {
		auto f = as<EventFd>(fd, File::EVENTFD);
		if (f) {
			++f->value;
			f->wake();
		}
	}
	void do_close(FileP f) {
		for (auto &r : f->regs) {
			auto &q = r.ep->ready;
			q.erase(std::remove(q.begin(), q.end(), f.get()), q.end());
		}
		f->regs.clear();
		files.erase(f->fd);
		f->fd = -1;
		if (f->kind == File::EPOLL) {
			for (auto &x : files)
				x.second->regs.erase(std::remove_if(x.second->regs.begin(), x.second->regs.end(), [&](File::Reg &r) { return r.ep == f.get(); }), x.second->regs.end());
		} else if (f->kind == File::TCP)
			static_cast<End &>(*f).app_close();
		else if (f->kind == File::LISTEN)
			for (auto &b : static_cast<Listen &>(*f).backlog)
				b->orphan = true, b->rst_pending = true;
	}
	// to be called by the harness after everything of the library was destroyed
	void finish() {
		dns_idle();
		if (violation.empty() && !files.empty())
			violation = "descriptor leak: " + std::to_string(files.size()) + " descriptors still open after everything was destroyed";
		if (!violation.empty())
			c.fail(violation.compare(0, 4, "spin") == 0 ? "spin" : violation.compare(0, 4, "desc") == 0 ? "fd-leak" : "syscall-misuse", violation);
	}
};
extern World *W;
World *W = nullptr;
// Where the library's resolver thread is. No state of the case is touched by that thread
struct DnsGate {
	enum State { NONE, BUSY, IDLE, HELD };
	pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
	pthread_cond_t cv  = PTHREAD_COND_INITIALIZER;
	pthread_t main_thread;
	State st = NONE;
	std::string host;
	int family   = 0;
	bool release = false;
	int rc       = 0;
	std::vector<std::string> ips;
	void *wake_cv           = nullptr;
	void (*wake_fn)(void *) = nullptr;
	void wake() {
		if (!wake_cv)
			return;
		void *cv = wake_cv;
		wake_cv  = nullptr;
		set(BUSY);
		wake_fn(cv);
	}
	std::vector<int> writes;  // event descriptors written by the thread. Read only when it is not busy
	DnsGate() : main_thread(pthread_self()) {}
	static DnsGate &get() {
		static DnsGate *g = new DnsGate;  // threads use it until the very end
		return *g;
	}
	bool foreign() const { return !pthread_equal(pthread_self(), main_thread); }
	void set(State s) {
		pthread_mutex_lock(&mu);
		st = s;
		pthread_cond_broadcast(&cv);
		pthread_mutex_unlock(&mu);
	}
	State sync() {
		struct timespec ts;
		clock_gettime(CLOCK_REALTIME, &ts);
		ts.tv_sec += 10;
		pthread_mutex_lock(&mu);
		while (st == BUSY)
			if (pthread_cond_timedwait(&cv, &mu, &ts))
				break;
		State s = st;
		pthread_mutex_unlock(&mu);
		return s;
	}
};
static DnsGate &dns_gate_made_by_main_thread = DnsGate::get();
inline bool World::dns_pending() {
	DnsGate::get().wake();
	return DnsGate::get().sync() == DnsGate::HELD;
}
inline void World::dns_deliver() {
	auto &d = DnsGate::get();
	if (d.sync() != DnsGate::HELD)
		return;
	d.ips.clear();
	d.rc = dns_answer ? dns_answer(d.host, d.family, d.ips) : EAI_FAIL;
	++dns_answers;
	pthread_mutex_lock(&d.mu);
	d.release = true;
	d.st      = DnsGate::BUSY;
	pthread_cond_broadcast(&d.cv);
	pthread_mutex_unlock(&d.mu);
	d.sync();
	for (int fd : d.writes)
		foreign_write(fd);
	d.writes.clear();
}
inline void World::dns_idle() {
	dns_answer = nullptr;
	while (dns_pending())
		dns_deliver();
}
inline World::World(pbt::Gen &g, pbt::Ctx &c) : g(g), c(c) { W = this; }
inline World::~World() {
	try {
		dns_idle();
	} catch (...) {
	}
	W = nullptr;
	for (auto &e : ends)
		e->peer.reset();
}
inline void File::wake() {
	for (auto &r : regs)
		if (!r.queued) {
			r.queued = true;
			r.ep->ready.push_back(this);
		}
}
inline bool mine(int fd) { return W && fd >= World::BASE; }
inline int err(int e) {
	errno = e;
	return -1;
}
}  // namespace sim

extern "C" {
#define SIM_REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
SIM_REAL(int, epoll_create1, int);
SIM_REAL(int, epoll_ctl, int, int, int, struct epoll_event *);
SIM_REAL(int, epoll_wait, int, struct epoll_event *, int, int);
SIM_REAL(int, eventfd, unsigned, int);
SIM_REAL(int, eventfd_read, int, eventfd_t *);
SIM_REAL(int, eventfd_write, int, eventfd_t);
SIM_REAL(int, socket, int, int, int);
SIM_REAL(int, connect, int, const struct sockaddr *, socklen_t);
SIM_REAL(int, bind, int, const struct sockaddr *, socklen_t);
SIM_REAL(int, listen, int, int);
SIM_REAL(int, accept4, int, struct sockaddr *, socklen_t *, int);
SIM_REAL(ssize_t, recv, int, void *, size_t, int);
SIM_REAL(ssize_t, send, int, const void *, size_t, int);
SIM_REAL(ssize_t, recvmsg, int, struct msghdr *, int);
SIM_REAL(ssize_t, sendmsg, int, const struct msghdr *, int);
SIM_REAL(ssize_t, recvfrom, int, void *, size_t, int, struct sockaddr *, socklen_t *);
SIM_REAL(ssize_t, sendto, int, const void *, size_t, int, const struct sockaddr *, socklen_t);
SIM_REAL(ssize_t, read, int, void *, size_t);
SIM_REAL(ssize_t, write, int, const void *, size_t);
SIM_REAL(ssize_t, readv, int, const struct iovec *, int);
SIM_REAL(ssize_t, writev, int, const struct iovec *, int);
SIM_REAL(int, shutdown, int, int);
SIM_REAL(int, close, int);
SIM_REAL(int, fcntl, int, int, ...);
SIM_REAL(int, setsockopt, int, int, int, const void *, socklen_t);
SIM_REAL(int, getsockopt, int, int, int, void *, socklen_t *);
SIM_REAL(int, getsockname, int, struct sockaddr *, socklen_t *);
SIM_REAL(int, getpeername, int, struct sockaddr *, socklen_t *);
int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
int64_t __real__ZNSt6chrono3_V212system_clock3nowEv();

using namespace sim;

static ssize_t io(int kind, int fd, size_t asked, ssize_t result) {
	if (W && W->on_io) {
		int e = errno;
		W->on_io(kind, fd, asked, result);
		errno = e;
	}
	return result;
}
static size_t total_len(const struct iovec *v, size_t n) {
	size_t r = 0;
	for (size_t i = 0; i != n; ++i)
		r += v[i].iov_len;
	return r;
}
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return W ? W->wall_ns() : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return W ? W->now_ns : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }

int __wrap_epoll_create1(int f) {
	if (!W)
		return __real_epoll_create1(f);
	return W->add(std::make_shared<Epoll>());
}
int __wrap_eventfd(unsigned v, int flags) {
	if (!W)
		return __real_eventfd(v, flags);
	auto e      = std::make_shared<EventFd>();
	e->value    = v;
	e->nonblock = flags & EFD_NONBLOCK;
	return W->add(e);
}
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *cv, void *lock);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *cv, void *lock) {
	auto &d = DnsGate::get();
	bool f  = d.foreign();
	if (f)
		d.set(DnsGate::IDLE);
	__real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(cv, lock);
	if (f)
		d.set(DnsGate::BUSY);
}
#define SIM_CV_NOTIFY(name)                        \
	void __real_##name(void *cv);                         \
	void __wrap_##name(void *cv) {                        \
		auto &d = DnsGate::get();                          \
		if (W && !d.foreign()) {                           \
			/* the thread runs only when the loop waits */ \
			if (d.sync() == DnsGate::IDLE) {               \
				d.wake_cv = cv;                            \
				d.wake_fn = &__real_##name;                \
			}                                              \
			return;                                        \
		}                                                  \
		if (!d.foreign() && d.st == DnsGate::IDLE)         \
			d.set(DnsGate::BUSY);                          \
		__real_##name(cv);                                 \
	}
SIM_CV_NOTIFY(_ZNSt18condition_variable10notify_oneEv)
SIM_CV_NOTIFY(_ZNSt18condition_variable10notify_allEv)
SIM_REAL(int, getaddrinfo, const char *, const char *, const struct addrinfo *, struct addrinfo **);
int __wrap_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
	auto &d = DnsGate::get();
	if (!W || !d.foreign())
		return __real_getaddrinfo(node, service, hints, res);
	pthread_mutex_lock(&d.mu);
	d.host   = node ? node : "";
	d.family = hints ? hints->ai_family : 0;
	d.st     = DnsGate::HELD;
	pthread_cond_broadcast(&d.cv);
	while (!d.release)
		pthread_cond_wait(&d.cv, &d.mu);
	d.release = false;
	int rc    = d.rc;
	auto ips  = d.ips;
	pthread_mutex_unlock(&d.mu);
	struct addrinfo *first = nullptr, **last = &first;
	struct addrinfo h;
	memset(&h, 0, sizeof(h));
	if (hints)
		h = *hints;
	h.ai_flags = (h.ai_flags | AI_NUMERICHOST) & ~AI_ADDRCONFIG;  // answers do not depend on addresses of this machine
	for (auto &ip : ips)
		if (!__real_getaddrinfo(ip.c_str(), service, &h, last))
			while (*last)
				last = &(*last)->ai_next;
	if (!rc && !first)
		rc = EAI_NONAME;
	*res = first;
	return rc;
}
int __wrap_eventfd_write(int fd, eventfd_t v) {
	if (!mine(fd))
		return __real_eventfd_write(fd, v);
	if (!pthread_equal(pthread_self(), W->main_thread)) {
		DnsGate::get().writes.push_back(fd);
		return 0;
	}
	auto e = W->as<EventFd>(fd, File::EVENTFD);
	if (!e)
		return err(EBADF);
	e->value += v;
	e->wake();
	return 0;
}
int __wrap_eventfd_read(int fd, eventfd_t *v) {
	if (!mine(fd))
		return __real_eventfd_read(fd, v);
	auto e = W->as<EventFd>(fd, File::EVENTFD);
	if (!e)
		return err(EBADF);
	if (!e->value) {
		if (!e->nonblock)
			W->die("blocking read of the wake-up descriptor");
		return err(EAGAIN);
	}
	*v       = e->value;
	e->value = 0;
	return 0;
}
int __wrap_epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev) {
	if (!mine(epfd))
		return __real_epoll_ctl(epfd, op, fd, ev);
	auto ep = W->as<Epoll>(epfd, File::EPOLL);
	auto f  = W->get(fd);
	if (!ep || !f)
		return err(EBADF);
	auto it = std::find_if(f->regs.begin(), f->regs.end(), [&](File::Reg &r) { return r.ep == ep.get(); });
	if (op == EPOLL_CTL_DEL) {
		if (it == f->regs.end())
			return err(ENOENT);
		f->regs.erase(it);
		ep->ready.erase(std::remove(ep->ready.begin(), ep->ready.end(), f.get()), ep->ready.end());
		return 0;
	}
	if (op == EPOLL_CTL_ADD) {
		if (it != f->regs.end())
			return err(EEXIST);
		File::Reg r;
		r.ep = ep.get();
		f->regs.push_back(r);
		it = f->regs.end() - 1;
	} else if (it == f->regs.end())
		return err(ENOENT);
	it->events = ev->events;
	it->data   = ev->data;
	if (f->poll() & (it->events | EPOLLERR | EPOLLHUP))
		f->wake();
	return 0;
}
int __wrap_epoll_wait(int epfd, struct epoll_event *evs, int max, int timeout) {
	if (!mine(epfd))
		return __real_epoll_wait(epfd, evs, max, timeout);
	auto ep = W->as<Epoll>(epfd, File::EPOLL);
	if (!ep)
		return err(EBADF);
	int n = W->wait(*ep, evs, max, timeout);
	W->last_events.clear();
	for (int i = 0; i < n; ++i)
		W->last_events.push_back(evs[i].events);
	return int(io(4, epfd, size_t(max), n));
}
int __wrap_socket(int family, int type, int proto) {
	if (!W)
		return __real_socket(family, type, proto);
	W->count();
	if (family != AF_INET && family != AF_INET6)
		return err(EAFNOSUPPORT);
	if (W->full())
		return err(EMFILE);
	int t = type & 0xf;
	FileP f;
	if (t == SOCK_DGRAM) {
		auto u = std::make_shared<Udp>();
		f      = u;
		W->udps.push_back(u);
		u->sndlimit  = 1 + W->g.below(8);
		u->local     = make_addr(0x7F000001, W->next_port++);
	} else
		f = std::make_shared<NewSock>(t, family);
	f->nonblock = type & SOCK_NONBLOCK;
	return W->add(f);
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t len) {
	if (!mine(fd))
		return __real_bind(fd, a, len);
	auto f = W->get(fd);
	if (!f)
		return err(EBADF);
	if (f->kind == File::UDP)
		memcpy(&static_cast<Udp &>(*f).local, a, std::min<size_t>(len, sizeof(sockaddr_storage)));
	else if (f->kind == File::NEWSOCK) {
		auto &n = static_cast<NewSock &>(*f);
		memcpy(&n.local, a, std::min<size_t>(len, sizeof(sockaddr_storage)));
		if (W->listener(port_of(n.local)))
			return err(EADDRINUSE);
	}
	return 0;
}
int __wrap_listen(int fd, int backlog) {
	if (!mine(fd))
		return __real_listen(fd, backlog);
	auto n = W->as<NewSock>(fd, File::NEWSOCK);
	if (!n)
		return err(EINVAL);
	auto l       = std::make_shared<Listen>();
	l->fd        = fd;
	l->nonblock  = n->nonblock;
	l->local     = n->local;
	W->files[fd] = l;
	return 0;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t len) {
	if (!mine(fd))
		return __real_connect(fd, a, len);
	W->count();
	auto f = W->get(fd);
	if (!f)
		return err(EBADF);
	if (f->kind == File::UDP) {
		auto &u = static_cast<Udp &>(*f);
		memcpy(&u.remote, a, std::min<size_t>(len, sizeof(sockaddr_storage)));
		u.connected = true;
		return 0;
	}
	if (f->kind != File::NEWSOCK)
		return err(EISCONN);
	if (!f->nonblock)
		W->bad("connect on a blocking socket");
	auto me = W->new_end(), other = W->new_end();
	me->fd       = fd;
	me->nonblock = f->nonblock;
	me->local    = make_addr(0x7F000001, W->next_port++);
	memcpy(&me->remote, a, std::min<size_t>(len, sizeof(sockaddr_storage)));
	me->peer = other, other->peer = me;
	other->local = me->remote, other->remote = me->local;
	int e = W->on_connect ? W->on_connect(me->remote, other) : 0;
	if (e < 0) {  // fails at once
		me->orphan = other->orphan = true;
		return err(-e);
	}
	me->state          = End::CONNECTING;
	me->connect_result = e;
	W->files[fd]       = me;
	if (!e && W->g.below(100) >= 100 - W->instant_connect_pct) {
		W->finish_connect(*me);
		if (me->dead) {
			me->dead = false, me->err = 0;
			return err(ECONNREFUSED);
		}
		return 0;
	}
	return err(EINPROGRESS);
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *len, int flags) {
	if (!mine(fd))
		return __real_accept4(fd, a, len, flags);
	W->count();
	auto l = W->as<Listen>(fd, File::LISTEN);
	if (!l)
		return err(EBADF);
	if (l->backlog.empty()) {
		if (!l->nonblock)
			W->die("blocking accept");
		return err(EAGAIN);
	}
	if (W->full())
		return err(EMFILE);
	if (W->accept_fault) {
		int e = W->accept_fault();
		if (e == ECONNABORTED || e == EPERM) {
			l->backlog.front()->orphan      = true;
			l->backlog.front()->rst_pending = true;
			l->backlog.pop_front();
		}
		if (e)
			return err(e);
	}
	auto b = l->backlog.front();
	l->backlog.pop_front();
	b->nonblock = flags & SOCK_NONBLOCK;
	if (a) {
		memcpy(a, &b->remote, std::min<size_t>(*len, sizeof(sockaddr_in)));
		*len = sizeof(sockaddr_in);
	}
	return W->add(b);
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *len) { return __wrap_accept4(fd, a, len, 0); }

static ssize_t sim_recv(int fd, const struct iovec *iov, int cnt) {
	W->count();
	auto e = W->as<End>(fd, File::TCP);
	if (!e)
		return err(EBADF);
	e->reads++;
	size_t total = 0;
	for (int i = 0; i != cnt; ++i)
		total += iov[i].iov_len;
	if (e->state == End::CONNECTING || (e->rq.empty() && !e->err && !e->rfin && !e->dead)) {
		if (!e->nonblock)
			W->die("blocking receive");
		return err(EAGAIN);
	}
	if (!e->rq.empty()) {
		ssize_t done = 0;
		for (int i = 0; i != cnt && !e->rq.empty(); ++i) {
			auto d = e->rq.pop(iov[i].iov_len);
			memcpy(iov[i].iov_base, d.data(), d.size());
			done += ssize_t(d.size());
		}
		return done;
	}
	if (e->err) {
		int x  = e->err;
		e->err = 0;
		return err(x);
	}
	e->eof_reads++;
	return 0;
}
static ssize_t trace(const char *what, int fd, ssize_t result) {  // SIM_TRACE=1 shows every stream call
	static const bool on = getenv("SIM_TRACE") != nullptr;
	if (on) {
		int e = errno;
		fprintf(stderr, "%lld %s(%d) = %lld%s%s\n", static_cast<long long>(W->now_ns), what, fd, static_cast<long long>(result), result < 0 ? " " : "", result < 0 ? strerror(e) : "");
		errno = e;
	}
	return result;
}
static ssize_t sim_send(int fd, const struct iovec *iov, int cnt) {
	W->count();
	auto e = W->as<End>(fd, File::TCP);
	if (!e)
		return err(EBADF);
	if (e->state == End::CONNECTING) {
		if (!e->nonblock)
			W->die("blocking send");
		return err(EAGAIN);
	}
	if (e->err) {
		int x  = e->err;
		e->err = 0;
		return err(x);
	}
	if (e->dead || e->wshut)
		return err(EPIPE);
	size_t total = 0;
	for (int i = 0; i != cnt; ++i)
		total += iov[i].iov_len;
	if (!total)
		return 0;
	if (W->send_fault) {
		int x = W->send_fault();
		if (x) {
			e->dead = true;
			e->wire.clear();
			return err(x);
		}
	}
	size_t space = e->sndbuf > e->wire.size() ? e->sndbuf - e->wire.size() : 0;
	if (!space) {
		e->nospace = true;
		W->eagain_sends++;
		if (!e->nonblock)
			W->die("blocking send");
		return err(EAGAIN);
	}
	size_t n = std::min(space, total);
	if (n > 1 && W->partial_pct && W->g.below(100) >= 100 - W->partial_pct)
		n = 1 + W->g.below(n - 1);
	if (n < total) {
		e->nospace = true;
		W->partial_sends++;
	}
	size_t left = n;
	for (int i = 0; i != cnt && left; ++i) {
		size_t k = std::min(left, iov[i].iov_len);
		e->wire.push(static_cast<const char *>(iov[i].iov_base), k);
		left -= k;
	}
	e->sent_total += n;
	return ssize_t(n);
}
static ssize_t sim_sendto(int fd, const void *data, size_t count, const struct sockaddr *a, socklen_t len) {
	W->count();
	auto u = W->as<Udp>(fd, File::UDP);
	if (!u)
		return err(EBADF);
	if (u->err) {
		int x  = u->err;
		u->err = 0;
		return err(x);
	}
	if (count > 65507)
		return err(EMSGSIZE);
	if (!a && !u->connected)
		return err(EDESTADDRREQ);
	if (u->inflight >= u->sndlimit) {
		u->nospace = true;
		W->eagain_sends++;
		if (!u->nonblock)
			W->die("blocking send");
		return err(EAGAIN);
	}
	Datagram d;
	d.data.assign(static_cast<const char *>(data), count);
	d.from = u->local;
	if (a)
		memcpy(&d.to, a, std::min<size_t>(len, sizeof(d.to)));
	else
		d.to = u->remote;
	u->inflight++;
	if (W->on_sendto)
		W->on_sendto(*u, d);
	W->udp_net.push_back(d);
	W->udp_senders.push_back(u);
	return ssize_t(count);
}
static ssize_t sim_recvfrom(int fd, void *data, size_t count, struct sockaddr *a, socklen_t *len) {
	W->count();
	auto u = W->as<Udp>(fd, File::UDP);
	if (!u)
		return err(EBADF);
	if (u->err) {
		int x  = u->err;
		u->err = 0;
		return err(x);
	}
	if (u->rq.empty()) {
		if (!u->nonblock)
			W->die("blocking receive");
		return err(EAGAIN);
	}
	if (count == 0)
		return err(EINVAL);  // some Linux systems
	Datagram d = u->rq.front();
	u->rq.pop_front();
	size_t n = std::min(count, d.data.size());
	memcpy(data, d.data.data(), n);
	if (a) {
		socklen_t k = d.from.ss_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
		memcpy(a, &d.from, std::min<size_t>(*len, k));
		*len = k;
	}
	return ssize_t(n);
}
ssize_t __wrap_recvfrom(int fd, void *data, size_t count, int flags, struct sockaddr *a, socklen_t *len) {
	if (!mine(fd))
		return __real_recvfrom(fd, data, count, flags, a, len);
	auto f = W->get(fd);
	if (f && f->kind == File::UDP)
		return io(2, fd, count, sim_recvfrom(fd, data, count, a, len));
	struct iovec v = {data, count};
	ssize_t n      = io(0, fd, count, sim_recv(fd, &v, 1));
	trace("recv", fd, n);
	for (ssize_t i = 0; i < n && n < 64 && getenv("SIM_TRACE"); ++i)
		fprintf(stderr, "%02x%s", static_cast<unsigned char *>(data)[i], i + 1 == n ? "\n" : " ");
	return n;
}
ssize_t __wrap_sendto(int fd, const void *data, size_t count, int flags, const struct sockaddr *a, socklen_t len) {
	if (!mine(fd))
		return __real_sendto(fd, data, count, flags, a, len);
	auto f = W->get(fd);
	if (f && f->kind == File::UDP)
		return io(3, fd, count, sim_sendto(fd, data, count, a, len));
	struct iovec v = {const_cast<void *>(data), count};
	return trace("send", fd, io(1, fd, count, sim_send(fd, &v, 1)));
}
ssize_t __wrap_recv(int fd, void *data, size_t count, int flags) {
	if (!mine(fd))
		return __real_recv(fd, data, count, flags);
	return __wrap_recvfrom(fd, data, count, flags, nullptr, nullptr);
}
ssize_t __wrap_send(int fd, const void *data, size_t count, int flags) {
	if (!mine(fd))
		return __real_send(fd, data, count, flags);
	return __wrap_sendto(fd, data, count, flags, nullptr, 0);
}
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int flags) {
	if (!mine(fd))
		return __real_recvmsg(fd, m, flags);
	return trace("recvmsg", fd, io(0, fd, total_len(m->msg_iov, m->msg_iovlen), sim_recv(fd, m->msg_iov, int(m->msg_iovlen))));
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int flags) {
	if (!mine(fd))
		return __real_sendmsg(fd, m, flags);
	return trace("sendmsg", fd, io(1, fd, total_len(m->msg_iov, m->msg_iovlen), sim_send(fd, m->msg_iov, int(m->msg_iovlen))));
}
ssize_t __wrap_read(int fd, void *data, size_t count) {
	if (!mine(fd))
		return __real_read(fd, data, count);
	auto f = W->get(fd);
	if (f && f->kind == File::EVENTFD)
		return __wrap_eventfd_read(fd, static_cast<eventfd_t *>(data)) < 0 ? -1 : 8;
	return __wrap_recvfrom(fd, data, count, 0, nullptr, nullptr);
}
ssize_t __wrap_write(int fd, const void *data, size_t count) {
	if (!mine(fd))
		return __real_write(fd, data, count);
	auto f = W->get(fd);
	if (f && f->kind == File::EVENTFD)
		return __wrap_eventfd_write(fd, *static_cast<const eventfd_t *>(data)) < 0 ? -1 : 8;
	return __wrap_sendto(fd, data, count, 0, nullptr, 0);
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) {
	if (!mine(fd))
		return __real_readv(fd, v, n);
	return trace("readv", fd, io(0, fd, total_len(v, size_t(n)), sim_recv(fd, v, n)));
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
	if (!mine(fd))
		return __real_writev(fd, v, n);
	return trace("writev", fd, io(1, fd, total_len(v, size_t(n)), sim_send(fd, v, n)));
}
int __wrap_shutdown(int fd, int how) {
	if (!mine(fd))
		return __real_shutdown(fd, how);
	auto e = W->as<End>(fd, File::TCP);
	if (!e)
		return err(EBADF);
	if (e->state == End::CONNECTING || e->dead)
		return err(ENOTCONN);
	if (how != SHUT_RD)
		e->wshut = true;
	return 0;
}
int __wrap_close(int fd) {
	if (!mine(fd))
		return __real_close(fd);
	auto f = W->get(fd);
	if (!f)
		return err(EBADF);
	W->do_close(f);
	return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (!mine(fd))
		return __real_fcntl(fd, cmd, arg);
	auto f = W->get(fd);
	if (!f)
		return err(EBADF);
	if (cmd == F_GETFL)
		return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
	if (cmd == F_SETFL)
		f->nonblock = arg & O_NONBLOCK;
	return 0;
}
int __wrap_fcntl64(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	return __wrap_fcntl(fd, cmd, arg);
}
int __wrap_setsockopt(int fd, int level, int opt, const void *v, socklen_t len) {
	if (!mine(fd))
		return __real_setsockopt(fd, level, opt, v, len);
	return W->get(fd) ? 0 : err(EBADF);
}
int __wrap_getsockopt(int fd, int level, int opt, void *v, socklen_t *len) {
	if (!mine(fd))
		return __real_getsockopt(fd, level, opt, v, len);
	auto f = W->get(fd);
	if (!f)
		return err(EBADF);
	memset(v, 0, *len);
	if (level == SOL_SOCKET && opt == SO_ERROR && f->kind == File::TCP)
		std::swap(*static_cast<int *>(v), static_cast<End &>(*f).err);
	return 0;
}
static int sim_name(int fd, struct sockaddr *a, socklen_t *len, bool local) {
	auto f = W->get(fd);
	if (!f)
		return err(EBADF);
	sockaddr_storage s = {};
	if (f->kind == File::TCP)
		s = local ? static_cast<End &>(*f).local : static_cast<End &>(*f).remote;
	else if (f->kind == File::UDP)
		s = local ? static_cast<Udp &>(*f).local : static_cast<Udp &>(*f).remote;
	else if (f->kind == File::LISTEN)
		s = static_cast<Listen &>(*f).local;
	memcpy(a, &s, std::min<size_t>(*len, sizeof(sockaddr_in)));
	*len = sizeof(sockaddr_in);
	return 0;
}
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *len) {
	if (!mine(fd))
		return __real_getsockname(fd, a, len);
	return sim_name(fd, a, len, true);
}
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *len) {
	if (!mine(fd))
		return __real_getpeername(fd, a, len);
	auto e = W->as<End>(fd, File::TCP);
	if (e && (e->state == End::CONNECTING || e->dead))
		return err(ENOTCONN);
	return sim_name(fd, a, len, false);
}
}  // extern C
