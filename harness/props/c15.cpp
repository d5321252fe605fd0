#include <crab/crab.hpp>
#include <algorithm>
#include <array>
#include <cmath>
#include <random>
#include "../pbt.hpp"
const char *const PROP_ID   = "C15";
const char *const PROP_RULE =
    "a generated seed and a generated sequence of calls (raw 32-bit outputs, bytes/data/pod of any size and alignment, printable strings, doubles, std::shuffle and uniform distributions) on one generator, mirrored "
    "on an independent PCG32; two generators with one seed must agree; unseeded generators must differ; non-trivial: at least two calls of different kinds";
using namespace crab;
using namespace pbt;
struct Ref {  // PCG32 (XSH RR), M. O'Neill; stream chosen by the seed, state warmed up by two steps from 0
	uint64_t state = 0, inc;
	explicit Ref(uint64_t seed) : inc(seed * 2 + 1) { next(), next(); }
	uint32_t next() {
		uint64_t o = state;
		state      = o * 6364136223846793005ULL + inc;
		uint32_t x = uint32_t(((o >> 18) ^ o) >> 27);
		unsigned r = unsigned(o >> 59);
		return r ? (x >> r) | (x << (32 - r)) : x;
	}
	std::string bytes(size_t n) {
		std::string r;
		while (r.size() < n) {
			uint32_t v = next();
			for (int i = 0; i != 4; ++i)
				r += char(v >> (8 * i));
		}
		r.resize(n);
		return r;
	}
};
// A seed whose first 32-bit output is v (PCG32 run backwards), so that rare outputs are met as often as common ones
static uint64_t seed_for(uint32_t v, unsigned rot, uint32_t low, bool top) {
	const uint64_t mul = 6364136223846793005ULL;
	uint32_t x = rot ? (v << rot) | (v >> (32 - rot)) : v;
	uint64_t s = uint64_t(rot) << 59;
	for (int i = 58; i >= 27; --i)
		s |= uint64_t(((x >> (i - 27)) & 1) ^ (i + 18 < 64 ? unsigned(s >> (i + 18)) & 1 : 0)) << i;
	s |= low & ((1u << 27) - 1);
	s = (s & ~uint64_t(3)) | 2;  // the state after the warm-up is inc * (mul + 1), and inc is odd
	uint64_t inv = 1, odd = (mul + 1) / 2;
	for (int i = 0; i != 7; ++i)
		inv *= 2 - odd * inv;
	uint64_t inc = ((s / 2) * inv) << 1 >> 1;
	return (inc | uint64_t(top) << 63) >> 1;
}
static uint64_t gen_seed(Gen &g, Ctx &c) {
	switch (g.pick({3, 3, 3, 1})) {
	case 0: return g.below(10);
	case 1: return g.u64();
	case 2: {
		static const std::vector<uint64_t> edge{0, 1, 2, 3, 4, 5, 61, 62, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu};
		uint32_t v    = uint32_t(g.of(edge));
		uint64_t seed = seed_for(v, unsigned(g.below(32)), uint32_t(g.below(1u << 27)), g.flag());
		c.cls("seed with an extreme first output");
		Ref r(seed);
		if (r.next() != v)
			abort();  // harness defect
		return seed;
	}
	default: {  // first two outputs both extreme: found by search over seed_for(0xFFFFFFFF, ...)
		static const std::vector<uint64_t> far{1095430452716482168ULL, 5514810518213237298ULL, 8118140485400908762ULL, 1614335378911821801ULL, 2371277711883710214ULL, 5178672336314962377ULL};
		c.cls("seed with two extreme outputs");
		return g.of(far);
	}
	}
}
void prop_case(Gen &g, Ctx &c) {
	if (g.chance(1, 50)) {
		c.cls("unseeded");
		Random a, b;
		PBT_LOG(c, "two unseeded generators\n");
		c.check(a.data(32) != b.data(32), "unseeded-equal", "two unseeded generators gave the same 32 bytes");
		return;
	}
	uint64_t seed = gen_seed(g, c);
	Random r(seed), twin(seed);
	Ref ref(seed);
	PBT_LOG(c, "seed " << seed << "\n");
	size_t n = g.urange(1, 12);
	unsigned kinds = 0;
	for (size_t i = 0; i != n; ++i) {
		size_t k = g.pick({3, 4, 2, 2, 3, 3, 1});
		kinds |= 1u << k;
		switch (k) {
		case 0: {
			uint32_t v = r();
			PBT_LOG(c, "raw " << v << "\n");
			c.cls("raw");
			c.eq(v, ref.next(), "raw-output", "32-bit output");
			c.check(v >= Random::min() && v <= Random::max(), "advertised-range", std::to_string(v) + " is outside of min()..max()");
			c.eq(twin(), v, "twin", "second generator");
			break;
		}
		case 1: {
			size_t len = g.len(70), off = g.below(8);
			PBT_LOG(c, "bytes " << len << " at " << off << "\n");
			c.cls("bytes");
			std::vector<char> buf(len + off + 8, 'q');
			r.bytes(buf.data() + off, len);
			c.eq(std::string(buf.data() + off, len), ref.bytes(len), "bytes-output", "bytes");
			for (size_t j = 0; j != off; ++j)
				c.check(buf[j] == 'q', "bytes-outside", "byte before the range changed");
			for (size_t j = off + len; j != buf.size(); ++j)
				c.check(buf[j] == 'q', "bytes-outside", "byte after the range changed");
			twin.data(len);
			break;
		}
		case 2: {
			size_t len = g.len(40);
			PBT_LOG(c, "data " << len << "\n");
			c.cls("data");
			auto d = r.data(len);
			c.eq(std::string(d.begin(), d.end()), ref.bytes(len), "bytes-output", "data");
			twin.data(len);
			break;
		}
		case 3: {
			PBT_LOG(c, "pod\n");
			c.cls("pod");
			switch (g.below(3)) {
			case 0: {
				auto v = r.pod<uint8_t>();
				c.eq(std::string(1, char(v)), ref.bytes(1), "bytes-output", "pod<uint8>");
				twin.pod<uint8_t>();
				break;
			}
			case 1: {
				auto v = r.pod<uint64_t>();
				std::string s(reinterpret_cast<char *>(&v), 8);
				c.eq(s, ref.bytes(8), "bytes-output", "pod<uint64>");
				twin.pod<uint64_t>();
				break;
			}
			default: {
				auto v = r.pod<std::array<uint8_t, 7>>();
				c.eq(std::string(v.begin(), v.end()), ref.bytes(7), "bytes-output", "pod<7 bytes>");
				twin.pod<std::array<uint8_t, 7>>();
			}
			}
			break;
		}
		case 4: {
			size_t len = g.len(60);
			PBT_LOG(c, "printable " << len << "\n");
			c.cls("printable");
			auto s = r.printable_string(len);
			c.eq(s.size(), len, "printable-size", "size");
			for (char ch : s)
				c.check(isalnum(uint8_t(ch)) && uint8_t(ch) < 128, "printable-alphabet", "not a letter or digit: " + Ctx::esc(s));
			std::string t = twin.printable_string(len);
			c.eq(t, s, "twin", "printable string of the second generator");
			// uses a whole number of 32-bit outputs: resynchronise by searching forward
			uint32_t mark = r();
			twin();
			bool found = false;
			for (size_t j = 0; j != len + 4 && !found; ++j)
				found = j >= len ? ref.next() == mark : (ref.next(), false);
			c.check(found, "sequence-lost", "after a printable string the sequence does not continue");
			break;
		}
		case 5: {
			PBT_LOG(c, "double\n");
			c.cls("double");
			double d = r.double_value();
			c.check(d >= 0 && d < 1, "double-range", "double_value() = " + std::to_string(d));
			uint32_t hi = ref.next();
			ref.next();
			c.check(std::fabs(d - hi / 4294967296.0) <= 1.0 / 1073741824.0, "double-value", "double_value() does not follow the sequence");
			c.eq(twin.double_value(), d, "twin", "double of the second generator");
			break;
		}
		default: {
			c.cls("std");
			PBT_LOG(c, "std adapters\n");
			{
				uint32_t top = uint32_t(g.below(4) ? g.below(20) : g.u64());
				std::uniform_int_distribution<uint32_t> wide(0, top);
				uint32_t y = wide(r);
				c.check(y <= top, "distribution-range", std::to_string(y) + " above " + std::to_string(top));
				c.eq(wide(twin), y, "twin", "distribution");
				std::uniform_real_distribution<double> unit;
				double z = unit(r);
				c.check(z >= 0 && z <= 1, "distribution-range", std::to_string(z));
				c.check(unit(twin) == z, "twin", "real distribution");
			}
			std::vector<int> v(g.urange(0, 20));
			for (size_t j = 0; j != v.size(); ++j)
				v[j] = int(j);
			auto w = v, sorted = v;
			std::shuffle(v.begin(), v.end(), r);
			std::shuffle(w.begin(), w.end(), twin);
			c.check(v == w, "twin", "shuffle of the second generator");
			std::sort(w.begin(), w.end());
			c.check(w == sorted, "shuffle", "not a permutation");
			std::uniform_int_distribution<int> dist(-3, 5);
			int x = dist(r);
			c.check(x >= -3 && x <= 5, "distribution-range", std::to_string(x));
			c.eq(dist(twin), x, "twin", "distribution");
			return;  // number of outputs used is the library's choice
		}
		}
	}
	if (kinds & (kinds - 1))
		c.nontrivial();
}
