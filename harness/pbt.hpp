// Property-based testing core: one choice stream per case. Every random decision of a
// property goes through Gen, so a case is a pure function of its choice sequence; shrinking
// edits that sequence and replaying feeds it back.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure {
	std::string sig;  // oracle clause that failed; stable across shrinking
	std::string msg;
};

struct Shared;  // shared-memory mirror of the running case (see pbt_main.cpp)
extern Shared *shared;

class Gen {
public:
	enum Mode { RANDOM, REPLAY, BYTES };
	static constexpr size_t MAX_CHOICES = 1 << 18;

	explicit Gen(uint64_t seed, unsigned size) : mode(RANDOM), size_(size) {
		s0 = mix(seed), s1 = mix(seed + 0x9E3779B97F4A7C15ULL) | 1;
	}
	explicit Gen(const std::vector<uint64_t> &choices, unsigned size) : mode(REPLAY), replay(choices), size_(size) {}
	Gen(const uint8_t *d, size_t n, unsigned size) : mode(BYTES), data(d), left(n), size_(size) {}

	// uniform in [0, n); n==0 means full 64-bit range. 0 is always the simplest choice
	uint64_t below(uint64_t n) {
		uint64_t v = 0;
		switch (mode) {
		case RANDOM:
			v = next64();
			if (n)
				v %= n;
			break;
		case REPLAY:
			v = pos < replay.size() ? replay[pos++] : 0;
			if (n && v >= n)
				v %= n;
			break;
		case BYTES: {
			int bytes = n == 0 ? 8 : n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000ULL ? 4 : 8;
			for (int i = 0; i != bytes && left; ++i, --left)
				v = (v << 8) | *data++;
			if (n)
				v %= n;
			break;
		}
		}
		record(v);
		return v;
	}
	// systematic choice: successive random cases of a run walk through 0..n-1 in order
	uint64_t enumerate(uint64_t n) {
		if (mode != RANDOM)
			return below(n);
		uint64_t v = index % n;
		record(v);
		return v;
	}
	void set_index(uint64_t i) { index = i; }
	// inclusive range, shrinks toward lo
	int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
	size_t urange(size_t lo, size_t hi) { return lo + size_t(below(uint64_t(hi - lo) + 1)); }
	bool flag() { return below(2) != 0; }
	// true with probability num/den; shrinks toward false
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
	uint64_t u64() { return below(0); }
	unsigned size() const { return size_; }  // 0..100, grows within a run

	// weighted alternative; index 0 is the simplest
	size_t pick(std::initializer_list<unsigned> weights) {
		unsigned total = 0;
		for (auto w : weights)
			total += w;
		uint64_t v = below(total);
		size_t i   = 0;
		for (auto w : weights) {
			if (v < w)
				return i;
			v -= w;
			++i;
		}
		return 0;
	}
	template<class T>
	const T &of(const std::vector<T> &v) { return v[below(v.size())]; }
	const char *of(std::initializer_list<const char *> v) { return v.begin()[below(v.size())]; }

	// length with a bias to small numbers, sometimes up to max
	size_t len(size_t max) {
		switch (pick({6, 3, 1})) {
		case 0: return size_t(below(std::min<uint64_t>(max, 8) + 1));
		case 1: return size_t(below(std::min<uint64_t>(max, 64) + 1));
		default: return size_t(below(uint64_t(max) + 1));
		}
	}
	std::string str(size_t n, const std::string &alphabet) {
		std::string r(n, 0);
		for (auto &c : r)
			c = alphabet[below(alphabet.size())];
		return r;
	}
	// bulk data from a single choice: deterministic content, never shrinks byte by byte
	std::string blob(size_t n) {
		uint64_t s = below(1 << 16);
		std::string r(n, 0);
		if (s == 0) {
			for (size_t i = 0; i != n; ++i)
				r[i] = char('a' + i % 26);
			return r;
		}
		uint64_t x = mix(s);
		for (size_t i = 0; i != n; ++i) {
			if (i % 8 == 0)
				x = x * 6364136223846793005ULL + 1442695040888963407ULL;
			r[i] = char((x ^ (x >> 29)) >> ((i % 8) * 8));
		}
		return r;
	}
	// fully random bytes, one choice each
	std::string bytes(size_t n) {
		std::string r(n, 0);
		for (auto &c : r)
			c = char(below(256));
		return r;
	}
	// split a total length into chunk lengths (each >= 1); classes of interest: all-1, few cuts, random
	std::vector<size_t> chunks(size_t total) {
		std::vector<size_t> r;
		if (!total)
			return r;
		switch (pick({2, 2, 4, 3})) {
		case 0: r.push_back(total); break;
		case 1: r.assign(total, 1); break;
		case 2: {
			size_t cut = total > 1 ? urange(1, total - 1) : 1;
			r.push_back(cut);
			if (cut < total)
				r.push_back(total - cut);
			break;
		}
		default:
			while (total) {
				size_t c = 1 + size_t(below(std::min<uint64_t>(total, 24)));
				if (c > total)
					c = total;
				r.push_back(c);
				total -= c;
			}
		}
		return r;
	}
	static uint64_t mix(uint64_t z) {
		z += 0x9E3779B97F4A7C15ULL;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	uint64_t content_hash() const { return hash; }
	size_t choices() const { return count; }

private:
	void record(uint64_t v);
	uint64_t next64() {  // xorshift128+
		uint64_t x = s0, y = s1;
		s0 = y;
		x ^= x << 23;
		s1 = x ^ y ^ (x >> 17) ^ (y >> 26);
		return s1 + y;
	}
	Mode mode;
	uint64_t s0 = 0, s1 = 0;
	std::vector<uint64_t> replay;
	size_t pos          = 0;
	const uint8_t *data = nullptr;
	size_t left         = 0;
	unsigned size_;
	uint64_t index = 0;
	uint64_t hash = 1469598103934665603ULL;
	size_t count  = 0;
};

class Ctx {
public:
	bool verbose = false;    // description wanted
	std::ostringstream log;  // human readable rendering of the case
	void flush();                // publishes the log, so that it survives a crash
	void cls(const char *name);  // counts the case once per class
	void nontrivial() { nontrivial_ = true; }
	bool is_nontrivial() const { return nontrivial_; }
	[[noreturn]] void fail(const std::string &sig, const std::string &msg) { throw Failure{sig, msg}; }
	void check(bool ok, const char *sig, const std::string &msg) {
		if (!ok)
			fail(sig, msg);
	}
	template<class A, class B>
	void eq(const A &a, const B &b, const char *sig, const char *what) {
		if (!(a == b)) {
			std::ostringstream s;
			s << what << ": got [" << show(a) << "] expected [" << show(b) << "]";
			fail(sig, s.str());
		}
	}
	static std::string show(const std::string &s) { return esc(s); }
	static std::string show(const char *s) { return esc(s); }
	template<class T>
	static std::string show(const T &t) {
		std::ostringstream s;
		s << t;
		return s.str();
	}
	static std::string esc(const std::string &s, size_t max = 400) {
		static const char hx[] = "0123456789abcdef";
		std::string r;
		for (unsigned char c : s) {
			if (r.size() > max) {
				r += "...(" + std::to_string(s.size()) + " bytes)";
				break;
			}
			if (c == '\n')
				r += "\\n";
			else if (c == '\r')
				r += "\\r";
			else if (c == '\\')
				r += "\\\\";
			else if (c < 32 || c >= 127) {
				r += "\\x";
				r += hx[c >> 4];
				r += hx[c & 15];
			} else
				r += char(c);
		}
		return r;
	}

private:
	bool nontrivial_ = false;
	friend struct Runner;
	uint64_t classes = 0;
};
#define PBT_LOG(c, x)      \
	do {                   \
		if ((c).verbose) { \
			(c).log << x;  \
			(c).flush();   \
		}                  \
	} while (0)

// reports a failure of the running case from any thread and ends the process
[[noreturn]] void fatal(const std::string &sig, const std::string &msg);

}  // namespace pbt

// Every property source defines these:
extern const char *const PROP_ID;
extern const char *const PROP_RULE;  // how cases are made and what makes one non-trivial
void prop_case(pbt::Gen &g, pbt::Ctx &c);
// optional named deterministic probes for recorded findings: returns "" if the property holds for
// that input, otherwise what failed. Default implementation (weak) knows none.
std::string prop_probe(const std::string &name);
