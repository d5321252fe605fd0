#include <crab/crab.hpp>
#include <cmath>
#include "../pbt.hpp"
const char *const PROP_ID   = "C10";
const char *const PROP_RULE =
    "message length walked systematically 0..400 plus random up to 70000 bytes, random or constant content, cut into generated updates (also empty ones) at generated memory alignments, several digest objects "
    "interleaved, md5/sha1/crc32/crc32c compared with independently written reference functions; plus (once per 65536 cases) a message longer than 512 MiB against constants from another implementation; "
    "non-trivial: length>=56 or at least two updates";
using namespace crab;
using namespace pbt;

static std::string ref_md5(const std::string &in) {
	static const int S[64] = {7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20,
	    4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21};
	static uint32_t K[64];
	if (!K[0])
		for (int i = 0; i != 64; ++i)
			K[i] = uint32_t(std::floor(4294967296.0 * std::fabs(std::sin(double(i + 1)))));
	std::string m = in + char(0x80);
	while (m.size() % 64 != 56)
		m += char(0);
	for (int i = 0; i != 8; ++i)
		m += char((uint64_t(in.size()) * 8) >> (8 * i));
	uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
	for (size_t o = 0; o != m.size(); o += 64) {
		uint32_t x[16];
		for (int i = 0; i != 16; ++i)
			x[i] = uint32_t(uint8_t(m[o + i * 4])) | uint32_t(uint8_t(m[o + i * 4 + 1])) << 8 | uint32_t(uint8_t(m[o + i * 4 + 2])) << 16 | uint32_t(uint8_t(m[o + i * 4 + 3])) << 24;
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
		for (int i = 0; i != 64; ++i) {
			uint32_t f;
			int k;
			switch (i / 16) {
			case 0: f = (b & c) | (~b & d), k = i; break;
			case 1: f = (d & b) | (~d & c), k = (5 * i + 1) % 16; break;
			case 2: f = b ^ c ^ d, k = (3 * i + 5) % 16; break;
			default: f = c ^ (b | ~d), k = (7 * i) % 16;
			}
			uint32_t t = a + f + K[i] + x[k];
			a          = d;
			d          = c;
			c          = b;
			b          = b + ((t << S[i]) | (t >> (32 - S[i])));
		}
		h[0] += a, h[1] += b, h[2] += c, h[3] += d;
	}
	std::string r;
	for (auto v : h)
		for (int i = 0; i != 4; ++i)
			r += char(v >> (8 * i));
	return r;
}
static uint32_t rl(uint32_t v, int n) { return (v << n) | (v >> (32 - n)); }
static std::string ref_sha1(const std::string &in) {
	std::string m = in + char(0x80);
	while (m.size() % 64 != 56)
		m += char(0);
	for (int i = 7; i >= 0; --i)
		m += char((uint64_t(in.size()) * 8) >> (8 * i));
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	for (size_t o = 0; o != m.size(); o += 64) {
		uint32_t w[80];
		for (int i = 0; i != 16; ++i)
			w[i] = uint32_t(uint8_t(m[o + i * 4])) << 24 | uint32_t(uint8_t(m[o + i * 4 + 1])) << 16 | uint32_t(uint8_t(m[o + i * 4 + 2])) << 8 | uint32_t(uint8_t(m[o + i * 4 + 3]));
		for (int i = 16; i != 80; ++i)
			w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i != 80; ++i) {
			uint32_t f, k;
			if (i < 20)
				f = (b & c) | (~b & d), k = 0x5A827999;
			else if (i < 40)
				f = b ^ c ^ d, k = 0x6ED9EBA1;
			else if (i < 60)
				f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC;
			else
				f = b ^ c ^ d, k = 0xCA62C1D6;
			uint32_t t = rl(a, 5) + f + e + k + w[i];
			e          = d;
			d          = c;
			c          = rl(b, 30);
			b          = a;
			a          = t;
		}
		h[0] += a, h[1] += b, h[2] += c, h[3] += d, h[4] += e;
	}
	std::string r;
	for (auto v : h)
		for (int i = 3; i >= 0; --i)
			r += char(v >> (8 * i));
	return r;
}
static uint32_t ref_crc(const std::string &s, uint32_t poly) {
	uint32_t c = 0xFFFFFFFFu;
	for (unsigned char b : s) {
		c ^= b;
		for (int i = 0; i != 8; ++i)
			c = (c >> 1) ^ (c & 1 ? poly : 0);
	}
	return ~c;
}
template<class D>
static std::string done(D &d) {
	uint8_t r[D::hash_size + 8];
	memset(r, 0xA7, sizeof(r));
	d.finalize(r);
	for (size_t i = D::hash_size; i != sizeof(r); ++i)
		if (r[i] != 0xA7)
			throw Failure{"digest-writes-outside", "finalize wrote past the result"};
	return std::string(reinterpret_cast<char *>(r), D::hash_size);
}
static void big_case(Gen &, Ctx &c) {
	c.cls("over 512 MiB");
	c.nontrivial();
	// (1<<29)+5 bytes of 'a', constants from Python hashlib
	std::vector<uint8_t> chunk((1 << 20) + 1, 'a');
	md5 m;
	sha1 s;
	uint64_t left = (uint64_t(1) << 29) + 5;
	while (left) {
		size_t n = size_t(std::min<uint64_t>(left, chunk.size()));
		m.add(chunk.data(), n);
		s.add(chunk.data(), n);
		left -= n;
	}
	std::string a = done(m), b = done(s);
	c.eq(to_hex(a.data(), a.size()), std::string("20ef7ce10f217e63b6b934ae4782cb25"), "md5-differs", "md5 of 2^29+5 times 'a'");
	c.eq(to_hex(b.data(), b.size()), std::string("e36a9def4ebb0dd8c0dd6606400a18d38b96d1e3"), "sha1-differs", "sha1 of 2^29+5 times 'a'");
}
void prop_case(Gen &g, Ctx &c) {
	if (g.enumerate(65536) == 65535)
		return big_case(g, c);
	struct Stream {
		std::string data;
		std::vector<char> raw;
		size_t off, pos = 0;
		md5 m;
		sha1 s;
		uint32_t c1 = 0, c2 = 0;
	};
	size_t k = g.chance(1, 3) ? 2 : 1;
	std::vector<std::unique_ptr<Stream>> ss;
	for (size_t i = 0; i != k; ++i) {
		ss.emplace_back(new Stream);
		size_t n;
		switch (g.pick({6, 3, 1})) {
		case 0: n = g.enumerate(401); break;
		case 1: n = g.urange(0, 2000); break;
		default: n = g.chance(1, 20) ? g.urange(0, 70000) : g.urange(0, 5) * 64 + g.urange(0, 130);
		}
		auto &s = *ss.back();
		s.data  = g.chance(1, 6) ? std::string(n, char(g.below(256))) : g.blob(n);
		s.off   = g.below(16);
		s.raw.assign(n + 32, 0);
		auto base = (reinterpret_cast<uintptr_t>(s.raw.data()) + 15) / 16 * 16 - reinterpret_cast<uintptr_t>(s.raw.data());
		s.off     = (base + s.off) % 32;
		memcpy(s.raw.data() + s.off, s.data.data(), n);
		PBT_LOG(c, "message " << n << " bytes at offset " << s.off << "\n");
	}
	size_t updates = 0;
	bool busy      = true;
	while (busy) {
		busy = false;
		for (auto &p : ss) {
			auto &s     = *p;
			size_t left = s.data.size() - s.pos, n;
			if (!left)
				continue;
			switch (g.pick({3, 3, 2, 1})) {
			case 0: n = left; break;
			case 1: n = g.urange(1, std::min<size_t>(left, 130)); break;
			case 2: n = std::min<size_t>(left, 64 * g.urange(1, 3) - s.pos % 64); break;
			default: n = 0;
			}
			PBT_LOG(c, "add " << n << "\n");
			const char *ptr = s.raw.data() + s.off + s.pos;
			s.m.add(ptr, n);
			s.s.add(uint8_cast(ptr), n);
			s.c1 = crc32(s.c1, uint8_cast(ptr), n);
			s.c2 = crc32c(s.c2, uint8_cast(ptr), n);
			s.pos += n;
			++updates;
			busy = true;
		}
	}
	for (auto &p : ss) {
		auto &s = *p;
		if (s.data.size() >= 56 || updates > k)
			c.nontrivial();
		auto a = done(s.m), b = done(s.s);
		std::string ea = ref_md5(s.data), eb = ref_sha1(s.data);
		c.eq(to_hex(a.data(), a.size()), to_hex(ea.data(), ea.size()), "md5-differs", "md5");
		c.eq(to_hex(b.data(), b.size()), to_hex(eb.data(), eb.size()), "sha1-differs", "sha1");
		c.eq(s.c1, ref_crc(s.data, 0xEDB88320u), "crc32-differs", "crc32");
		c.eq(s.c2, ref_crc(s.data, 0x82F63B78u), "crc32c-differs", "crc32c");
	}
	// the handshake digest is built from sha1 and base64
	if (g.chance(1, 8)) {
		std::string key = g.str(g.len(40), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/=");
		std::string h   = ref_sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11");
		static const char tab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
		std::string want;
		h += char(0);
		for (size_t i = 0; i != 21; i += 3) {
			uint32_t v = uint32_t(uint8_t(h[i])) << 16 | uint32_t(uint8_t(h[i + 1])) << 8 | uint8_t(h[i + 2]);
			for (int q = 18; q >= 0; q -= 6)
				want += tab[(v >> q) & 63];
		}
		want.back() = '=';
		PBT_LOG(c, "handshake key " << key << "\n");
		c.eq(http::ResponseHeader::generate_sec_websocket_accept(key), want, "accept-differs", "sec-websocket-accept");
	}
}
