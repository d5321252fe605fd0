#include <crab/crab.hpp>
#include "../pbt.hpp"
const char *const PROP_ID   = "C12";
const char *const PROP_RULE =
    "a circular buffer of generated capacity (0..40, sometimes larger) and a generated history of operations (write_some, write, read_some, read, window fill + did_write, window read + did_read over both parts, "
    "did_write_undo, read_from/write_to/read_enough_data with a partner that takes any number of bytes per call, peek, clear, resize, copy and move) mirrored on a plain string; after each operation size, "
    "fullness and all four windows must describe exactly the model; non-trivial: the contents wrapped around the end at least once";
using namespace crab;
using namespace pbt;

struct Source : IStream {
	std::string data;
	std::vector<size_t> quota;  // per call
	size_t pos = 0, call = 0;
	size_t read_some(uint8_t *val, size_t count) override {
		size_t q = call < quota.size() ? quota[call] : 0;
		++call;
		size_t n = std::min(std::min(q, count), data.size() - pos);
		memcpy(val, data.data() + pos, n);
		pos += n;
		return n;
	}
};
struct Sink : OStream {
	std::string data;
	std::vector<size_t> quota;
	size_t call = 0;
	size_t write_some(const uint8_t *val, size_t count) override {
		size_t q = call < quota.size() ? quota[call] : 0;
		++call;
		size_t n = std::min(q, count);
		data.append(reinterpret_cast<const char *>(val), n);
		return n;
	}
};
static std::vector<size_t> quotas(Gen &g) {
	std::vector<size_t> r(g.urange(0, 5));
	for (auto &q : r)
		q = g.flag() ? g.urange(0, 8) : 1000;
	return r;
}
void prop_case(Gen &g, Ctx &c) {
	size_t cap = g.chance(1, 10) ? g.urange(0, 500) : g.urange(0, 24);
	std::unique_ptr<Buffer> bp(new Buffer(cap));
	std::string m;
	bool wrapped = false;
	uint8_t next = 1;
	auto fresh   = [&](size_t n) {
        std::string s(n, 0);
        for (auto &ch : s)
            ch = char(next++);
        return s;
	};
	PBT_LOG(c, "capacity " << cap << "\n");
	auto verify = [&](const char *op) {
		Buffer &b = *bp;
		std::string w(op);
		c.eq(b.size(), m.size(), "size", (w + ": size").c_str());
		c.eq(b.empty(), m.empty(), "empty", (w + ": empty").c_str());
		c.eq(b.capacity(), cap, "capacity", (w + ": capacity").c_str());
		c.eq(b.full(), m.size() == cap, "full", (w + ": full").c_str());
		c.eq(b.read_count() + b.read_count2(), m.size(), "read-windows", (w + ": readable bytes").c_str());
		c.eq(b.write_count() + b.write_count2(), cap - m.size(), "write-windows", (w + ": free bytes").c_str());
		c.check(m.empty() || b.read_count() > 0, "read-window-empty", w + ": data present but first read window is empty");
		c.check(m.size() == cap || b.write_count() > 0, "write-window-empty", w + ": space present but first write window is empty");
		std::string s(reinterpret_cast<const char *>(b.read_ptr()), b.read_count());
		s.append(reinterpret_cast<const char *>(b.read_ptr2()), b.read_count2());
		c.eq(s, m, "contents", (w + ": windows").c_str());
		if (b.read_count2())
			wrapped = true;
		// windows must not overlap: readable and free bytes together are the whole storage
		if (cap) {
			std::vector<int> used(cap, 0);
			const uint8_t *base = std::min<const uint8_t *>(b.read_ptr2(), b.write_ptr2());
			auto mark           = [&](const uint8_t *p, size_t n) {
                for (size_t i = 0; i != n; ++i) {
                    size_t k = size_t(p + i - base);
                    c.check(k < cap && !used[k]++, "windows-overlap", w + ": windows overlap or leave the storage");
                }
			};
			mark(b.read_ptr(), b.read_count());
			mark(b.read_ptr2(), b.read_count2());
			mark(b.write_ptr(), b.write_count());
			mark(b.write_ptr2(), b.write_count2());
		}
	};
	verify("new");
	size_t ops = g.urange(1, 40);
	for (size_t i = 0; i != ops; ++i) {
		Buffer &b = *bp;
		switch (g.pick({5, 5, 2, 2, 3, 3, 2, 3, 3, 2, 2, 1, 1, 1, 1})) {
		case 0: {
			std::string d = fresh(g.urange(0, cap + 3));
			size_t n      = b.write_some(d.data(), d.size());
			PBT_LOG(c, "write_some " << d.size() << " -> " << n << "\n");
			c.check(n <= d.size() && n <= cap - m.size(), "write-too-much", "write_some accepted more than given or free");
			c.check(n > 0 || d.empty() || m.size() == cap, "write-refused", "write_some accepted nothing though there is space");
			m += d.substr(0, n);
			verify("write_some");
			break;
		}
		case 1: {
			size_t want = g.urange(0, cap + 3);
			std::vector<uint8_t> v(want + 1);
			size_t n = b.read_some(v.data(), want);
			PBT_LOG(c, "read_some " << want << " -> " << n << "\n");
			c.check(n <= want && n <= m.size(), "read-too-much", "read_some returned more than asked or stored");
			c.check(n > 0 || !want || m.empty(), "read-refused", "read_some returned nothing though there is data");
			c.eq(std::string(v.begin(), v.begin() + long(n)), m.substr(0, n), "fifo-order", "read_some bytes");
			m.erase(0, n);
			verify("read_some");
			break;
		}
		case 2: {
			std::string d = fresh(g.urange(0, cap - m.size()));
			PBT_LOG(c, "write " << d.size() << "\n");
			b.write(d.data(), d.size());
			m += d;
			verify("write");
			break;
		}
		case 3: {
			size_t n = g.urange(0, m.size());
			std::vector<uint8_t> v(n + 1);
			PBT_LOG(c, "read " << n << "\n");
			b.read(v.data(), n);
			c.eq(std::string(v.begin(), v.begin() + long(n)), m.substr(0, n), "fifo-order", "read bytes");
			m.erase(0, n);
			verify("read");
			break;
		}
		case 4: {  // fill windows, commit any part, also across both windows
			size_t n      = g.urange(0, cap - m.size());
			std::string d = fresh(n);
			PBT_LOG(c, "did_write " << n << "\n");
			size_t k = std::min(n, b.write_count());
			memcpy(b.write_ptr(), d.data(), k);
			if (n > k)
				memcpy(b.write_ptr2(), d.data() + k, n - k);
			b.did_write(n);
			m += d;
			verify("did_write");
			break;
		}
		case 5: {
			size_t n = g.urange(0, m.size());
			PBT_LOG(c, "did_read " << n << "\n");
			b.did_read(n);
			m.erase(0, n);
			verify("did_read");
			break;
		}
		case 6: {
			size_t n = g.urange(0, m.size());
			PBT_LOG(c, "did_write_undo " << n << "\n");
			b.did_write_undo(n);
			m.resize(m.size() - n);
			verify("did_write_undo");
			break;
		}
		case 7: {
			Source s;
			s.data   = fresh(g.urange(0, cap + 3));
			s.quota  = quotas(g);
			size_t n = b.read_from(s);
			PBT_LOG(c, "read_from " << s.data.size() << " -> " << n << "\n");
			c.eq(n, s.pos, "read-from-count", "read_from result");
			m += s.data.substr(0, s.pos);
			verify("read_from");
			break;
		}
		case 8: {
			Sink s;
			s.quota    = quotas(g);
			size_t max = g.flag() ? g.urange(0, cap + 2) : std::numeric_limits<size_t>::max();
			size_t n   = max > cap + 2 ? b.write_to(s) : b.write_to(s, max);
			PBT_LOG(c, "write_to max " << max << " -> " << n << "\n");
			c.eq(n, s.data.size(), "write-to-count", "write_to result");
			c.check(n <= max, "write-to-max", "write_to wrote more than max");
			c.eq(s.data, m.substr(0, n), "fifo-order", "write_to bytes");
			m.erase(0, n);
			verify("write_to");
			break;
		}
		case 9: {
			Source s;
			s.data      = fresh(g.urange(0, cap + 3));
			s.quota     = quotas(g);
			size_t want = g.urange(0, cap + 1);
			bool ok     = b.read_enough_data(s, want);
			PBT_LOG(c, "read_enough_data " << want << " -> " << ok << "\n");
			m += s.data.substr(0, s.pos);
			c.eq(ok, m.size() >= want, "read-enough", "read_enough_data result");
			verify("read_enough_data");
			break;
		}
		case 10: {
			size_t want = g.urange(0, m.size() + 2);
			std::vector<uint8_t> v(want + 1, 0xEE);
			bool ok = b.peek(v.data(), want);
			PBT_LOG(c, "peek " << want << " -> " << ok << "\n");
			c.eq(ok, want <= m.size(), "peek", "peek result");
			if (ok)
				c.eq(std::string(v.begin(), v.begin() + long(want)), m.substr(0, want), "peek-bytes", "peeked bytes");
			c.check(v[want] == 0xEE, "peek-outside", "peek wrote past the end");
			verify("peek");
			break;
		}
		case 11:
			PBT_LOG(c, "clear\n");
			b.clear();
			m.clear();
			verify("clear");
			break;
		case 12: {
			cap = g.urange(0, 30);
			PBT_LOG(c, "clear " << cap << "\n");
			b.clear(cap);
			m.clear();
			verify("clear to a new capacity");
			break;
		}
		case 13: {
			PBT_LOG(c, "copy\n");
			std::unique_ptr<Buffer> n(new Buffer(*bp));
			bp->clear();
			bp.swap(n);
			verify("copy");
			break;
		}
		default: {
			PBT_LOG(c, "move\n");
			std::unique_ptr<Buffer> n(new Buffer(std::move(*bp)));
			bp.swap(n);
			verify("move");
		}
		}
	}
	if (wrapped) {
		c.nontrivial();
		c.cls("wrapped");
	}
}
