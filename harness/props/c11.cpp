#include <crab/crab.hpp>
#include "../pbt.hpp"
const char *const PROP_ID   = "C11";
const char *const PROP_RULE =
    "one of: every byte string of length 0..2 (walked systematically, 65793 strings) and random ones up to 300 bytes through base64 and hex, encodings compared with reference encoders and decoded back; random "
    "texts over a confusable alphabet (bad characters, padding anywhere, wrong lengths, concatenated encodings) judged by a reference decoder; UTF-8: every 1-2 byte string and every code point (walked), plus "
    "random mutated sequences judged by a range-table reference; non-trivial: all but the empty string";
using namespace crab;
using namespace pbt;
static const char tab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string ref_enc(const std::string &s) {
	std::string r;
	uint32_t acc = 0;
	int bits     = 0;
	for (unsigned char b : s) {
		acc = (acc << 8) | b;
		bits += 8;
		while (bits >= 6) {
			bits -= 6;
			r += tab[(acc >> bits) & 63];
		}
	}
	if (bits)
		r += tab[(acc << (6 - bits)) & 63];
	while (r.size() % 4)
		r += '=';
	return r;
}
// groups of 4; a group may end in '=' or '=='; the last group may lack its padding
static bool ref_dec(const std::string &t, std::string &out) {
	out.clear();
	for (size_t i = 0; i < t.size(); i += 4) {
		std::string grp = t.substr(i, 4);
		if (grp.size() == 4 && grp[3] == '=') {
			grp.pop_back();
			if (grp[2] == '=')
				grp.pop_back();
		}
		if (grp.size() < 2)
			return false;
		uint32_t acc = 0;
		for (char ch : grp) {
			const char *p = ch ? strchr(tab, ch) : nullptr;
			if (!p)
				return false;
			acc = (acc << 6) | uint32_t(p - tab);
		}
		acc <<= 6 * (4 - grp.size());
		for (size_t k = 0; k + 1 < grp.size(); ++k)
			out += char(acc >> (16 - 8 * k));
	}
	return true;
}
static bool ref_utf8(const std::string &s) {
	auto at = [&](size_t i) { return i < s.size() ? int(uint8_t(s[i])) : -1; };
	auto in = [](int v, int lo, int hi) { return v >= lo && v <= hi; };
	for (size_t i = 0; i < s.size();) {
		int b = at(i);
		if (b < 0x80)
			i += 1;
		else if (in(b, 0xC2, 0xDF) && in(at(i + 1), 0x80, 0xBF))
			i += 2;
		else if (in(b, 0xE0, 0xEF) && in(at(i + 1), b == 0xE0 ? 0xA0 : 0x80, b == 0xED ? 0x9F : 0xBF) && in(at(i + 2), 0x80, 0xBF))
			i += 3;
		else if (in(b, 0xF0, 0xF4) && in(at(i + 1), b == 0xF0 ? 0x90 : 0x80, b == 0xF4 ? 0x8F : 0xBF) && in(at(i + 2), 0x80, 0xBF) && in(at(i + 3), 0x80, 0xBF))
			i += 4;
		else
			return false;
	}
	return true;
}
static std::string put_cp(uint32_t cp) {  // also encodes surrogates and values past the end, on purpose
	std::string r;
	if (cp < 0x80)
		r += char(cp);
	else if (cp < 0x800)
		r += char(0xC0 | cp >> 6), r += char(0x80 | (cp & 63));
	else if (cp < 0x10000)
		r += char(0xE0 | cp >> 12), r += char(0x80 | ((cp >> 6) & 63)), r += char(0x80 | (cp & 63));
	else
		r += char(0xF0 | cp >> 18), r += char(0x80 | ((cp >> 12) & 63)), r += char(0x80 | ((cp >> 6) & 63)), r += char(0x80 | (cp & 63));
	return r;
}
static std::string small(uint64_t k) {
	if (k == 0)
		return "";
	if (k <= 256)
		return std::string(1, char(k - 1));
	k -= 257;
	return std::string{char(k >> 8), char(k)};
}
static std::string sv(const bdata &d) { return std::string(d.begin(), d.end()); }

static void codec(Ctx &c, const std::string &d) {
	std::vector<uint8_t> exact(d.begin(), d.end());
	std::string e = base64::encode(exact.data(), exact.size());
	c.eq(e, ref_enc(d), "base64-encode", "encoding");
	c.eq(e.size(), base64::encoded_size(d.size()), "base64-size", "encoded_size");
	bdata out{1, 2, 3};
	c.check(base64::decode(&out, e), "base64-own-refused", e);
	c.eq(sv(out), d, "base64-round-trip", "decoded");
	while (!e.empty() && e.back() == '=')
		e.pop_back();
	c.check(base64::decode(&out, e), "base64-unpadded-refused", e);
	c.eq(sv(out), d, "base64-round-trip", "decoded without padding");
	std::string h = to_hex(exact.data(), exact.size()), want;
	for (unsigned char b : d) {
		want += "0123456789abcdef"[b >> 4];
		want += "0123456789abcdef"[b & 15];
	}
	c.eq(h, want, "hex-encode", "hex");
	c.check(from_hex(out, h), "hex-own-refused", h);
	c.eq(sv(out), d, "hex-round-trip", "from_hex");
	for (auto &ch : h)
		ch = char(toupper(ch));
	c.check(from_hex(out, h), "hex-upper-refused", h);
	c.eq(sv(out), d, "hex-round-trip", "from_hex of upper case");
}
static void utf8(Ctx &c, const std::string &s) {
	std::vector<uint8_t> exact(s.begin(), s.end());
	bool want = ref_utf8(s);
	c.cls(want ? "utf8 valid" : "utf8 invalid");
	if (is_valid_utf8(exact.data(), exact.size()) != want)
		c.fail("utf8-verdict", "[" + Ctx::esc(s) + "] expected " + (want ? "valid" : "invalid"));
}
void prop_case(Gen &g, Ctx &c) {
	switch (g.pick({3, 2, 3, 1, 3, 3})) {
	case 0: {
		std::string d = small(g.enumerate(65793));
		PBT_LOG(c, "codec [" << Ctx::esc(d) << "]\n");
		c.cls("codec short");
		if (!d.empty())
			c.nontrivial();
		codec(c, d);
		break;
	}
	case 1: {
		std::string d = g.blob(g.len(300));
		PBT_LOG(c, "codec [" << Ctx::esc(d) << "]\n");
		c.cls("codec long");
		if (!d.empty())
			c.nontrivial();
		codec(c, d);
		break;
	}
	case 2: {
		std::string t;
		switch (g.pick({2, 2, 2})) {
		case 0: t = g.str(g.len(20), "AZaz09+/=="); break;
		case 1: t = g.str(g.len(12), std::string("AQgw+/=-_. \n\0\x80\xff@[`{:", 20)); break;
		default:
			t = ref_enc(g.blob(g.len(12)));
			if (g.flag())
				t += ref_enc(g.blob(g.len(12)));
			for (size_t i = g.below(3); i-- && !t.empty();)
				switch (g.below(3)) {
				case 0: t.erase(g.below(t.size()), 1); break;
				case 1: t.insert(g.below(t.size() + 1), 1, "=A/-"[g.below(4)]); break;
				default: t[g.below(t.size())] = char(g.below(256));
				}
		}
		PBT_LOG(c, "base64 text [" << Ctx::esc(t) << "]\n");
		c.nontrivial();
		std::string want;
		bool ok = ref_dec(t, want);
		c.cls(ok ? "base64 text legal" : "base64 text illegal");
		bdata out{7, 7};
		bool got = base64::decode(&out, t);
		if (got != ok)
			c.fail(ok ? "base64-legal-refused" : "base64-illegal-accepted", Ctx::esc(t));
		c.eq(sv(out), got ? want : std::string("\7\7"), "base64-decode", "decoded bytes");
		break;
	}
	case 3: {
		std::string t = g.str(g.len(12), std::string("09afAFgG@`/: \0\xb2", 15));
		PBT_LOG(c, "hex text [" << Ctx::esc(t) << "]\n");
		c.nontrivial();
		bool ok = t.size() % 2 == 0 && t.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos;
		c.cls(ok ? "hex text legal" : "hex text illegal");
		bdata out{7, 7};
		if (from_hex(out, t) != ok)
			c.fail("hex-verdict", Ctx::esc(t));
		if (!ok)
			c.eq(sv(out), std::string("\7\7"), "hex-refused-but-changed", "output");
		else
			c.eq(to_hex(out), [&] { auto l = t; for (auto &x : l) x = char(tolower(x)); return l; }(), "hex-decode", "decoded");
		break;
	}
	case 4: {
		std::string s;
		if (g.flag())
			s = put_cp(uint32_t(g.enumerate(0x110000 + 0x400)));
		else
			s = small(g.enumerate(65793));
		PBT_LOG(c, "utf8 [" << Ctx::esc(s) << "]\n");
		if (!s.empty())
			c.nontrivial();
		utf8(c, s);
		break;
	}
	default: {
		std::string s;
		size_t n = g.urange(1, 6);
		for (size_t i = 0; i != n; ++i)
			switch (g.pick({3, 2, 2, 1})) {
			case 0: {
				static const std::vector<uint64_t> edge{0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff};
				s += put_cp(uint32_t(g.of(edge)));
				break;
			}
			case 1: s += put_cp(uint32_t(g.below(0x110000))); break;
			case 2: s += g.str(g.urange(1, 4), "\x80\x8f\x90\x9f\xa0\xbf\xc0\xc1\xc2\xe0\xed\xef\xf0\xf4\xf5\xff"); break;
			default: s += g.of({"a", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe0\x9f\xbf", "\xf0\x8f\xbf\xbf", "\xc1\xbf", "\xf8\x88\x80\x80\x80"});
			}
		if (g.chance(1, 3) && !s.empty())
			s.resize(g.below(s.size()) + 1);
		PBT_LOG(c, "utf8 [" << Ctx::esc(s) << "]\n");
		c.nontrivial();
		utf8(c, s);
	}
	}
}
