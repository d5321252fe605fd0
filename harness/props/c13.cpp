#include <crab/crab.hpp>
#include "../pbt.hpp"
const char *const PROP_ID   = "C13";
const char *const PROP_RULE =
    "a source stream (memory, vector, string, growing vector/string, circular buffer, or combinations of these nested up to 3 deep) with generated contents, and a history of read_some, read, write_to (bounded or "
    "not) into destinations that take a generated number of bytes per call or are library streams, appends, moves and clears; the delivered bytes plus what the source still holds must always be the original; "
    "non-trivial: some transfer was partial, or the source is a combination";
using namespace crab;
using namespace pbt;

struct Sink : OStream {
	std::string data;
	std::vector<size_t> quota;
	size_t call = 0;
	size_t write_some(const uint8_t *val, size_t count) override {
		size_t q = call < quota.size() ? quota[call] : 0;
		++call;
		size_t n = std::min(q, count);
		data.append(reinterpret_cast<const char *>(val), n);
		return n;
	}
};
struct Holder {  // keeps the storage of non-owning streams alive
	std::vector<std::unique_ptr<std::string>> strings;
	std::vector<std::unique_ptr<bdata>> vectors;
};
static uint8_t next_byte;
static std::string fresh(size_t n) {
	std::string s(n, 0);
	for (auto &ch : s)
		ch = char(next_byte++);
	return s;
}
static std::unique_ptr<IFiniteStream> make(Gen &g, Ctx &c, Holder &h, std::string &content, int depth) {
	size_t kind = g.pick({3, 2, 2, 2, 2, 2, depth ? 6u : 0u});
	std::string d = fresh(g.len(kind == 6 ? 0 : 40));
	switch (kind) {
	case 0:
		PBT_LOG(c, "memory(" << d.size() << ") ");
		h.vectors.emplace_back(new bdata(d.begin(), d.end()));
		content += d;
		return std::unique_ptr<IFiniteStream>(new IMemoryStream(h.vectors.back()->data(), d.size()));
	case 1:
		PBT_LOG(c, "ivector(" << d.size() << ") ");
		h.vectors.emplace_back(new bdata(d.begin(), d.end()));
		content += d;
		return std::unique_ptr<IFiniteStream>(new IVectorStream(h.vectors.back().get()));
	case 2:
		PBT_LOG(c, "istring(" << d.size() << ") ");
		h.strings.emplace_back(new std::string(d));
		content += d;
		return std::unique_ptr<IFiniteStream>(new IStringStream(h.strings.back().get()));
	case 3:
		PBT_LOG(c, "string(" << d.size() << ") ");
		content += d;
		return std::unique_ptr<IFiniteStream>(new StringStream(d));
	case 4:
		PBT_LOG(c, "vector(" << d.size() << ") ");
		content += d;
		return std::unique_ptr<IFiniteStream>(new VectorStream(bdata(d.begin(), d.end())));
	case 5: {
		PBT_LOG(c, "buffer(" << d.size() << ") ");
		std::unique_ptr<Buffer> b(new Buffer(d.size() + g.urange(0, 5)));
		if (b->capacity()) {  // start at a generated position so that the contents may wrap
			size_t shift = g.below(b->capacity());
			b->did_write(std::min(shift + 1, b->capacity()));
			if (d.size() < b->capacity() && shift + 1 < b->capacity())
				b->write(d.data(), 1), b->did_read(shift + 1), b->write(d.data() + 1, d.empty() ? 0 : d.size() - 1);
			else
				b->did_read(b->size()), b->write(d.data(), d.size());
			if (b->size() != d.size())  // d empty: one byte too many
				b->clear();
		}
		content += d;
		return std::move(b);
	}
	default: {
		PBT_LOG(c, "combined[ ");
		c.cls("combined");
		auto a = make(g, c, h, content, depth - 1);
		auto b = make(g, c, h, content, depth - 1);
		PBT_LOG(c, "] ");
		return std::unique_ptr<IFiniteStream>(new CombinedIStream(std::move(a), std::move(b)));
	}
	}
}
void prop_case(Gen &g, Ctx &c) {
	next_byte = 1;
	Holder h;
	std::string m;  // what the source must still hold
	auto src   = make(g, c, h, m, 3);
	bool multi = dynamic_cast<CombinedIStream *>(src.get()) != nullptr, partial = false;
	PBT_LOG(c, "\n");
	size_t ops = g.urange(1, 12);
	for (size_t i = 0; i != ops; ++i) {
		c.eq(src->size(), m.size(), "remaining-size", "size()");
		c.eq(src->empty(), m.empty(), "remaining-empty", "empty()");
		switch (g.pick({6, 3, 3, 2, 2, 2})) {
		case 0: {  // transfer into a stuttering sink
			Sink s;
			s.quota.resize(g.urange(0, 6));
			for (auto &q : s.quota)
				q = g.flag() ? g.urange(0, 10) : 1000;
			size_t max = g.flag() ? g.urange(0, m.size() + 2) : std::numeric_limits<size_t>::max();
			size_t n   = max > m.size() + 2 ? src->write_to(s) : src->write_to(s, max);
			PBT_LOG(c, "write_to sink max=" << max << " -> " << n << " (sink took " << s.data.size() << ")\n");
			c.check(s.data.size() <= max, "over-max", "more than max_count was written");
			c.eq(s.data, m.substr(0, s.data.size()), "order", "bytes delivered");
			c.eq(n, s.data.size(), "count", "write_to result");
			partial |= n < std::min(max, m.size());
			m.erase(0, n);
			break;
		}
		case 1: {
			size_t want = g.urange(0, m.size() + 3);
			std::vector<uint8_t> v(want + 1, 0xEE);
			size_t n = src->read_some(v.data(), want);
			PBT_LOG(c, "read_some " << want << " -> " << n << "\n");
			c.check(n <= want && n <= m.size(), "read-too-much", "read_some returned too much");
			c.check(n > 0 || !want || m.empty(), "read-refused", "read_some returned nothing though data remains");
			c.eq(std::string(v.begin(), v.begin() + long(n)), m.substr(0, n), "order", "bytes read");
			c.check(v[want] == 0xEE, "read-outside", "wrote past the destination");
			partial |= n < std::min(want, m.size());
			m.erase(0, n);
			break;
		}
		case 2: {
			size_t want = g.urange(0, m.size() + 3);
			std::vector<uint8_t> v(want + 1, 0xEE);
			bool thrown = false;
			PBT_LOG(c, "read " << want << " of " << m.size() << "\n");
			try {
				src->read(v.data(), want);
			} catch (const std::runtime_error &) {
				thrown = true;
			}
			c.eq(thrown, want > m.size(), "exact-read", "exact read failed");
			if (thrown)
				return;
			c.eq(std::string(v.begin(), v.begin() + long(want)), m.substr(0, want), "order", "bytes read");
			m.erase(0, want);
			break;
		}
		case 3: {  // into library destinations
			size_t room = g.urange(0, m.size() + 3);
			std::vector<uint8_t> v(room + 1, 0xEE);
			OMemoryStream o(v.data(), room);
			size_t n = src->write_to(o);
			PBT_LOG(c, "write_to memory room=" << room << " -> " << n << "\n");
			c.eq(n, std::min(room, m.size()), "memory-destination", "bytes accepted by a memory destination");
			c.eq(std::string(v.begin(), v.begin() + long(n)), m.substr(0, n), "order", "bytes in memory destination");
			c.check(v[room] == 0xEE, "memory-outside", "wrote past the destination");
			partial |= n < m.size();
			m.erase(0, n);
			// exact write to what is left of the destination
			size_t left = room - n, w = g.urange(0, left + 2);
			std::string d = fresh(w);
			bool thrown   = false;
			try {
				o.write(d.data(), d.size());
			} catch (const std::runtime_error &) {
				thrown = true;
			}
			c.eq(thrown, w > left, "exact-write", "exact write failed");
			c.eq(std::string(v.begin() + long(n), v.begin() + long(n + std::min(w, left))), d.substr(0, std::min(w, left)), "order", "bytes written");
			c.check(v[room] == 0xEE, "memory-outside", "wrote past the destination");
			break;
		}
		case 4: {
			std::string pre = fresh(g.urange(0, 3));
			size_t max      = g.urange(0, m.size() + 2);
			std::string got;
			size_t n;
			if (g.flag()) {
				bdata v(pre.begin(), pre.end());
				OVectorStream o(&v);
				n   = src->write_to(o, max);
				got = std::string(v.begin(), v.end());
			} else {
				got = pre;
				OStringStream o(&got);
				n = src->write_to(o, max);
			}
			PBT_LOG(c, "write_to growing max=" << max << " -> " << n << "\n");
			c.eq(n, std::min(max, m.size()), "count", "write_to a growing destination");
			c.eq(got, pre + m.substr(0, n), "order", "growing destination");
			m.erase(0, n);
			break;
		}
		default: {
			if (auto s = dynamic_cast<StringStream *>(src.get())) {
				std::string d = fresh(g.urange(0, 8));
				s->write(d.data(), d.size());
				m += d;
				PBT_LOG(c, "append " << d.size() << "\n");
				if (g.flag()) {
					std::unique_ptr<IFiniteStream> n;
					if (g.flag())
						n.reset(new StringStream(std::move(*s)));
					else {
						auto t = new StringStream(fresh(3));
						n.reset(t);
						*t = std::move(*s);
					}
					src.swap(n);
					PBT_LOG(c, "moved\n");
				} else if (g.chance(1, 4)) {
					s->clear();
					m.clear();
					PBT_LOG(c, "cleared\n");
				}
			} else if (auto s = dynamic_cast<VectorStream *>(src.get())) {
				std::string d = fresh(g.urange(0, 8));
				s->write(d.data(), d.size());
				m += d;
				PBT_LOG(c, "append " << d.size() << "\n");
				if (g.flag()) {
					std::unique_ptr<IFiniteStream> n;
					if (g.flag())
						n.reset(new VectorStream(std::move(*s)));
					else {
						auto t = new VectorStream(bdata(3));
						n.reset(t);
						*t = std::move(*s);
					}
					src.swap(n);
					PBT_LOG(c, "moved\n");
				} else if (g.chance(1, 4)) {
					s->clear();
					m.clear();
					PBT_LOG(c, "cleared\n");
				}
			}
		}
		}
	}
	c.eq(src->size(), m.size(), "remaining-size", "size()");
	std::vector<uint8_t> v(m.size() + 1);
	src->read(v.data(), m.size());
	c.eq(std::string(v.begin(), v.end() - 1), m, "order", "remaining bytes");
	c.eq(src->size(), size_t(0), "remaining-size", "size() at the end");
	if (multi || partial)
		c.nontrivial();
	if (partial)
		c.cls("partial");
}
