#include <crab/crab.hpp>
#include "../pbt.hpp"
const char *const PROP_ID   = "C06";
const char *const PROP_RULE =
    "one of: (a) header values (opcode, fin, length at/around every encoding boundary or random 63-bit, mask) saved, compared byte for byte with an independent RFC 6455 encoder and parsed back in "
    "generated pieces with bytes following; (b) masking with generated shift, memory alignment, length and piece sizes vs per-byte XOR, guard bytes around; (c) payload parsed in pieces, masked or not; "
    "(d) every value of the first two header bytes (walked systematically) judged by an independent validity rule; non-trivial: (a) length>=126 or masked, (b) at least 9 bytes, (c) non-empty payload in >=2 pieces, (d) always";
using namespace crab;
using namespace pbt;
using http::WebMessageHeaderParser;
using http::WebMessageHeaderSaver;

static std::string ref_header(bool fin, int op, uint64_t len, bool masked, uint32_t key) {
	std::string r(1, char((fin ? 128 : 0) | op));
	int m = masked ? 128 : 0;
	if (len <= 125)
		r += char(m | int(len));
	else if (len <= 0xFFFF) {
		r += char(m | 126);
		r += char(len >> 8);
		r += char(len);
	} else {
		r += char(m | 127);
		for (int s = 56; s >= 0; s -= 8)
			r += char(len >> s);
	}
	if (masked)
		for (int s = 24; s >= 0; s -= 8)
			r += char(key >> s);
	return r;
}
static uint8_t key_byte(uint32_t key, uint64_t i) { return uint8_t(key >> (8 * (3 - i % 4))); }

static uint32_t gen_key(Gen &g) {
	switch (g.pick({1, 1, 2, 6})) {
	case 0: return 0;
	case 1: return 0xFFFFFFFFu;
	case 2: return 0x01020304u << (g.below(4) * 8);
	default: return uint32_t(g.below(uint64_t(1) << 32));
	}
}
static uint64_t gen_len(Gen &g) {
	static const std::vector<uint64_t> edges{0, 1, 125, 126, 127, 128, 255, 256, 65535, 65536, 65537, 0xFFFFFF, 0xFFFFFFFF, 0x100000000ULL, 0x7FFFFFFFFFFFFFFFULL};
	switch (g.pick({4, 2, 2, 2})) {
	case 0: return g.of(edges);
	case 1: return g.below(126);
	case 2: return 126 + g.below(65536 - 126);
	default: return g.below(uint64_t(1) << g.urange(1, 63));
	}
}
// feeds in pieces until good; alternates the pointer and the stream-buffer interface
static size_t feed(WebMessageHeaderParser &p, const std::string &in, const std::vector<size_t> &cuts, bool use_buffer) {
	size_t pos = 0;
	if (use_buffer) {
		Buffer b(64);
		for (auto c : cuts) {
			while (c && !p.is_good()) {
				size_t n = b.write_some(uint8_cast(in.data()) + pos, c);
				p.parse(b);
				pos += n;
				c -= n;
				if (p.is_good())
					return pos - b.size();
				if (b.size() != 0) {  // wrapped
					p.parse(b);
					if (p.is_good())
						return pos - b.size();
				}
			}
			if (p.is_good())
				break;
		}
		return pos - b.size();
	}
	for (auto c : cuts) {
		auto e = p.parse(uint8_cast(in.data()) + pos, uint8_cast(in.data()) + pos + c);
		pos += size_t(e - (uint8_cast(in.data()) + pos));
		if (p.is_good())
			break;
	}
	return pos;
}

static void header_case(Gen &g, Ctx &c) {
	static const int ops[] = {0, 1, 2, 8, 9, 10};
	int op                 = ops[g.below(6)];
	bool control           = op >= 8;
	bool fin               = control || g.flag();
	uint64_t len           = control ? g.below(126) : gen_len(g);
	bool masked            = g.flag();
	uint32_t key           = masked ? gen_key(g) : 0;
	PBT_LOG(c, "header op=" << op << " fin=" << fin << " len=" << len << " masked=" << masked << " key=" << key << "\n");
	c.cls("header");
	if (len >= 126 || masked)
		c.nontrivial();
	optional<uint32_t> ok;
	if (masked)
		ok = key;
	WebMessageHeaderSaver s(fin, op, len, ok);
	std::string text(reinterpret_cast<const char *>(s.data()), s.size());
	c.eq(text, ref_header(fin, op, len, masked, key), "saved-header", "bytes");
	size_t extra = g.len(20);
	std::string in = text + g.blob(extra);
	WebMessageHeaderParser p;
	size_t used;
	try {
		used = feed(p, in, g.chunks(in.size()), g.flag());
	} catch (const std::exception &ex) {
		c.fail("valid-header-refused", ex.what());
	}
	c.check(p.is_good(), "header-incomplete", "parser not done");
	c.eq(used, text.size(), "header-extent", "bytes consumed");
	c.eq(int(p.fin), int(fin), "header-fin", "fin");
	c.eq(p.opcode, op, "header-opcode", "opcode");
	c.eq(p.payload_len, len, "header-length", "payload_len");
	c.eq(bool(p.masking_key), masked, "header-mask-flag", "mask present");
	if (masked)
		c.eq(*p.masking_key, key, "header-mask", "mask");
}
static void mask_case(Gen &g, Ctx &c) {
	size_t n       = g.len(g.chance(1, 8) ? 4096 : 128);
	uint32_t key   = gen_key(g);
	uint64_t shift = g.chance(1, 4) ? g.below(uint64_t(1) << 40) : g.below(16);
	size_t off     = g.below(17);
	std::string d  = g.blob(n);
	PBT_LOG(c, "mask n=" << n << " key=" << key << " shift=" << shift << " alignment=" << off << "\n");
	c.cls("mask");
	if (n >= 9)
		c.nontrivial();
	std::vector<char> raw(n + 64, char(0x5A));
	auto base = (reinterpret_cast<uintptr_t>(raw.data()) + 15) / 16 * 16;
	char *ptr = reinterpret_cast<char *>(base) + off % 16 + 8 - 8;
	char *lo = raw.data(), *hi = raw.data() + raw.size();
	std::memcpy(ptr, d.data(), n);
	auto verify = [&](const std::string &want, const char *sig) {
		for (char *q = lo; q != ptr; ++q)
			c.check(*q == 0x5A, "mask-writes-outside", "byte before the data changed");
		for (char *q = ptr + n; q != hi; ++q)
			c.check(*q == 0x5A, "mask-writes-outside", "byte after the data changed");
		if (std::memcmp(ptr, want.data(), n) != 0)
			c.fail(sig, "got " + Ctx::esc(std::string(ptr, n)) + " expected " + Ctx::esc(want));
	};
	std::string want = d;
	for (size_t i = 0; i != n; ++i)
		want[i] = char(uint8_t(d[i]) ^ key_byte(key, shift + i));
	size_t pos = 0;
	for (auto k : g.chunks(n)) {
		WebMessageHeaderParser::mask_data(size_t(shift + pos), ptr + pos, k, key);
		pos += k;
	}
	verify(want, "mask-differs");
	pos = 0;
	for (auto k : g.chunks(n)) {
		WebMessageHeaderParser::mask_data(size_t(shift + pos), ptr + pos, k, key);
		pos += k;
	}
	verify(d, "mask-not-involution");
}
static void body_case(Gen &g, Ctx &c) {
	size_t n      = g.chance(1, 40) ? g.below(140000) : g.len(600);
	bool masked   = g.flag();
	uint32_t key  = masked ? gen_key(g) : 0;
	std::string d = g.blob(n), in = d;
	if (masked)
		for (size_t i = 0; i != n; ++i)
			in[i] = char(uint8_t(d[i]) ^ key_byte(key, i));
	in += g.blob(g.len(20));
	auto cuts = g.chunks(in.size());
	bool buf  = g.flag();
	PBT_LOG(c, "body n=" << n << " masked=" << masked << " key=" << key << " pieces=" << cuts.size() << "\n");
	c.cls("body");
	if (n && cuts.size() > 1)
		c.nontrivial();
	optional<uint32_t> ok;
	if (masked)
		ok = key;
	http::WebMessageBodyParser p(n, ok);
	size_t pos = 0, used = 0;
	if (buf) {
		Buffer b(g.urange(1, 200));
		while (pos != in.size() && !p.is_good()) {
			size_t w = b.write_some(uint8_cast(in.data()) + pos, std::min(in.size() - pos, g.urange(1, 200)));
			pos += w;
			p.parse(b);
			if (b.size() && !p.is_good())
				p.parse(b);
		}
		used = pos - b.size();
	} else
		for (auto k : cuts) {
			c.check(p.is_good() == (used >= n), "body-completion", "completion at the wrong byte");
			auto e = p.parse(uint8_cast(in.data()) + used, uint8_cast(in.data()) + used + k);
			used   = size_t(e - uint8_cast(in.data()));
			if (p.is_good())
				break;
		}
	c.check(p.is_good(), "body-incomplete", "not done after all bytes");
	c.eq(used, n, "body-extent", "bytes consumed");
	if (p.body.get_buffer() != d)
		c.fail("body-bytes", "got " + Ctx::esc(p.body.get_buffer()) + " expected " + Ctx::esc(d));
}
static void defect_case(Gen &g, Ctx &c) {
	unsigned v = unsigned(g.enumerate(65536));
	unsigned b0 = v >> 8, b1 = v & 255;
	int op = b0 & 15;
	bool known = op <= 2 || (op >= 8 && op <= 10);
	bool valid = !(b0 & 0x70) && known && !(op >= 8 && (!(b0 & 0x80) || (b1 & 127) > 125));
	PBT_LOG(c, "bytes " << b0 << " " << b1 << " valid=" << valid << "\n");
	c.cls(valid ? "first two bytes legal" : "first two bytes illegal");
	c.nontrivial();
	std::string in{char(b0), char(b1)};
	// what follows is legal whatever the length code: a length that needs the long form, then a mask
	std::string tail;
	uint64_t len = b1 & 127;
	if (len == 126) {
		len  = 126 + g.below(60000);
		tail = std::string{char(len >> 8), char(len)};
	} else if (len == 127) {
		len = 65536 + g.below(uint64_t(1) << 40);
		for (int s = 56; s >= 0; s -= 8)
			tail += char(len >> s);
	}
	uint32_t key = 0;
	if (b1 & 128) {
		key = gen_key(g);
		for (int s = 24; s >= 0; s -= 8)
			tail += char(key >> s);
	}
	in += tail;
	WebMessageHeaderParser p;
	std::string err;
	try {
		feed(p, in, g.chunks(in.size()), g.flag());
	} catch (const std::exception &ex) {
		err = ex.what();
	}
	if (valid) {
		c.check(err.empty(), "valid-header-refused", err);
		c.check(p.is_good(), "header-incomplete", "not done");
		c.eq(p.payload_len, len, "header-length", "payload_len");
		c.eq(p.opcode, op, "header-opcode", "opcode");
		c.eq(bool(p.masking_key), (b1 & 128) != 0, "header-mask-flag", "mask");
		if (b1 & 128)
			c.eq(*p.masking_key, key, "header-mask", "mask");
	} else
		c.check(!err.empty(), "forbidden-header-accepted", "header bytes " + Ctx::esc(in));
}
void prop_case(Gen &g, Ctx &c) {
	switch (g.pick({3, 3, 3, 3})) {
	case 0: header_case(g, c); break;
	case 1: mask_case(g, c); break;
	case 2: body_case(g, c); break;
	default: defect_case(g, c);
	}
}
