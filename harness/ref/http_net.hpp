// Raw HTTP peer pieces used by the network properties: request texts, an independent response
// parser and WebSocket frame codec. Nothing here uses the library.
#pragma once
#include <string>
#include <vector>
#include "../pbt.hpp"

namespace hn {
using pbt::Gen;

inline std::string lower(std::string s) {
	for (auto &c : s)
		if (c >= 'A' && c <= 'Z')
			c = char(c + 32);
	return s;
}

// Seconds since 1970 of "Sun, 06 Nov 1994 08:49:37 GMT" (RFC 7231 IMF-fixdate, exactly that form), -1 if it is not one
inline int64_t imf_fixdate(const std::string &s) {
	static const char *const days[]   = {"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"};  // 1970-01-01 was a Thursday
	static const char *const months[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
	static const int lengths[]        = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	const std::string form            = "aaa, 00 aaa 0000 00:00:00 GMT";
	if (s.size() != form.size())
		return -1;
	for (size_t i = 0; i != s.size(); ++i)
		if (form[i] == '0' ? !(s[i] >= '0' && s[i] <= '9') : form[i] != 'a' && s[i] != form[i])
			return -1;
	auto num   = [&s](size_t at, size_t n) { return atoi(s.substr(at, n).c_str()); };
	int month  = 0, day = num(5, 2), year = num(12, 4), h = num(17, 2), m = num(20, 2), sec = num(23, 2);
	auto leap  = [](int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); };
	while (month != 12 && s.substr(8, 3) != months[month])
		++month;
	if (month == 12 || year < 1970 || day < 1 || day > lengths[month] + (month == 1 && leap(year)) || h > 23 || m > 59 || sec > 59)
		return -1;
	int64_t d = day - 1;
	for (int y = 1970; y != year; ++y)
		d += leap(y) ? 366 : 365;
	for (int k = 0; k != month; ++k)
		d += lengths[k] + (k == 1 && leap(year));
	if (s.substr(0, 3) != days[d % 7])
		return -1;
	return ((d * 24 + h) * 60 + m) * 60 + sec;
}

struct Msg {
	std::string start;
	std::vector<std::pair<std::string, std::string>> headers;  // names lower case
	std::string body;
	int status = 0;
	bool v10 = false, close = false, chunked = false, has_length = false;
	const std::string *find(const std::string &n) const {
		for (auto &h : headers)
			if (h.first == n)
				return &h.second;
		return nullptr;
	}
	size_t count(const std::string &n) const {
		size_t k = 0;
		for (auto &h : headers)
			k += h.first == n;
		return k;
	}
};

// strict parser of a message stream as the library writes it (CRLF only, no folding). Incremental.
class MsgParser {
public:
	std::string buf, error;
	bool request    = false;
	bool any_version = false;
	bool stop_after = false;  // upgrade seen: the rest is not HTTP
	std::vector<Msg> out;
	uint64_t total = 0;
	const std::string &partial_body() const { return cur.body; }
	size_t partial() const { return st == HEAD ? buf.size() : 1 + buf.size(); }

	void feed(const std::string &s) {
		buf += s;
		total += s.size();
		while (error.empty() && step()) {
		}
	}

private:
	enum { HEAD, LENGTH, CHUNK_HEAD, CHUNK_DATA, CHUNK_END, TRAILER } st = HEAD;
	Msg cur;
	uint64_t left = 0;
	bool bad(const std::string &e) {
		error = e;
		return false;
	}
	void done() {
		out.push_back(std::move(cur));
		cur = Msg();
		st  = HEAD;
	}
	static bool num(const std::string &s, int base, uint64_t &v) {
		if (s.empty() || s.size() > 15)
			return false;
		v = 0;
		for (char c : s) {
			int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
			if (d >= base)
				return false;
			v = v * uint64_t(base) + uint64_t(d);
		}
		return true;
	}
	bool line(std::string &l) {
		size_t p = buf.find("\r\n");
		if (p == std::string::npos)
			return false;
		l = buf.substr(0, p);
		buf.erase(0, p + 2);
		return true;
	}
	bool step() {
		switch (st) {
		case HEAD: {
			if (stop_after)
				return false;
			size_t e = buf.find("\r\n\r\n");
			if (e == std::string::npos) {
				if (buf.size() > 100000)
					return bad("head of more than 100000 bytes");
				return false;
			}
			std::string head = buf.substr(0, e + 2);
			buf.erase(0, e + 4);
			return parse_head(head);
		}
		case LENGTH: {
			size_t n = size_t(std::min<uint64_t>(left, buf.size()));
			cur.body.append(buf, 0, n);
			buf.erase(0, n);
			left -= n;
			if (left)
				return false;
			done();
			return true;
		}
		case CHUNK_HEAD: {
			std::string l;
			if (!line(l))
				return buf.size() > 20 ? bad("chunk size line too long: " + pbt::Ctx::esc(buf, 40)) : false;
			if (!num(l, 16, left))
				return bad("bad chunk size line: " + pbt::Ctx::esc(l, 40));
			st = left ? CHUNK_DATA : TRAILER;
			return true;
		}
		case CHUNK_DATA: {
			size_t n = size_t(std::min<uint64_t>(left, buf.size()));
			cur.body.append(buf, 0, n);
			buf.erase(0, n);
			left -= n;
			if (left)
				return false;
			st = CHUNK_END;
			return true;
		}
		case CHUNK_END:
			if (buf.size() < 2)
				return false;
			if (buf.compare(0, 2, "\r\n"))
				return bad("no line end after chunk data");
			buf.erase(0, 2);
			st = CHUNK_HEAD;
			return true;
		case TRAILER: {
			std::string l;
			if (!line(l))
				return false;
			if (l.empty())
				done();
			return true;
		}
		}
		return false;
	}
	bool parse_head(const std::string &head) {
		size_t p = head.find("\r\n");
		cur      = Msg();
		cur.start = head.substr(0, p);
		size_t i  = p + 2;
		while (i < head.size()) {
			size_t e      = head.find("\r\n", i);
			std::string l = head.substr(i, e - i);
			i             = e + 2;
			size_t c      = l.find(':');
			if (c == std::string::npos || c == 0)
				return bad("header line without a name: " + pbt::Ctx::esc(l, 60));
			std::string v = l.substr(c + 1);
			while (!v.empty() && v[0] == ' ')
				v.erase(0, 1);
			for (char ch : l)
				if (static_cast<unsigned char>(ch) < 32 && ch != '\t')
					return bad("control byte in header line");
			cur.headers.push_back(std::make_pair(lower(l.substr(0, c)), v));
		}
		bool ok = true;
		if (request) {
			size_t e = cur.start.rfind(" HTTP/1.");
			ok       = e != std::string::npos && e + 9 == cur.start.size();
			cur.v10  = ok && cur.start.back() == '0';
		} else {
			if (any_version && cur.start.compare(0, 5, "HTTP/") == 0 && cur.start.find(' ') < 10)  // library answers with version of the request
				cur.start = "HTTP/1.1" + cur.start.substr(cur.start.find(' '));
			ok = cur.start.compare(0, 7, "HTTP/1.") == 0 && cur.start.size() >= 12 && cur.start[8] == ' ';
			if (ok) {
				cur.v10 = cur.start[7] == '0';
				uint64_t v;
				ok         = num(cur.start.substr(9, 3), 10, v) && v >= 100 && (cur.start.size() == 12 || cur.start[12] == ' ');
				cur.status = int(v);
			}
		}
		if (!ok)
			return bad("bad start line: " + pbt::Ctx::esc(cur.start, 80));
		cur.close = cur.v10;
		for (auto &h : cur.headers) {
			if (h.first == "connection") {
				std::string v = "," + lower(h.second) + ",";
				for (auto &x : v)
					if (x == ' ')
						x = ',';
				if (v.find(",close,") != std::string::npos)
					cur.close = true;
				if (v.find(",keep-alive,") != std::string::npos)
					cur.close = false;
			}
			if (h.first == "transfer-encoding") {
				if (lower(h.second) != "chunked")
					return bad("unexpected transfer-encoding " + h.second);
				cur.chunked = true;
			}
			if (h.first == "content-length") {
				if (cur.has_length || !num(h.second, 10, left))
					return bad("bad or repeated content-length");
				cur.has_length = true;
			}
		}
		if (cur.chunked && cur.has_length)
			return bad("both content-length and chunked");
		if (cur.status == 101) {
			done();
			stop_after = true;
			return true;
		}
		if (cur.chunked)
			st = CHUNK_HEAD;
		else if (cur.has_length)
			st = LENGTH;
		else if (request)
			done();
		else
			return bad("response without a length: " + pbt::Ctx::esc(cur.start, 80));
		if (st == LENGTH && left == 0)
			done();
		return true;
	}
};

// ---- WebSocket frames
struct Frame {
	bool fin = true;
	int op = 0, rsv = 0;
	bool masked = false;
	uint32_t key = 0;
	std::string data;
	uint64_t forced_len = UINT64_MAX;  // announce this length instead
	int len_form = 0;                  // 0 shortest, 1 16 bit, 2 64 bit
	std::string encode() const {
		std::string r;
		r += char((fin ? 0x80 : 0) | (rsv << 4) | op);
		uint64_t n = forced_len == UINT64_MAX ? data.size() : forced_len;
		int m      = masked ? 0x80 : 0;
		if (n < 126 && len_form == 0)
			r += char(m | int(n));
		else if (n < 65536 && len_form <= 1) {
			r += char(m | 126);
			r += char(n >> 8);
			r += char(n);
		} else {
			r += char(m | 127);
			for (int i = 56; i >= 0; i -= 8)
				r += char(n >> i);
		}
		std::string d = data;
		if (masked) {
			for (int i = 24; i >= 0; i -= 8)
				r += char(key >> i);
			for (size_t i = 0; i != d.size(); ++i)
				d[i] = char(d[i] ^ char(key >> (24 - 8 * (i % 4))));
		}
		return r + d;
	}
};
class FrameParser {
public:
	std::string buf, error;
	std::vector<Frame> out;
	void feed(const std::string &s) {
		buf += s;
		while (step()) {
		}
	}

private:
	bool step() {
		size_t pos = 2;
		if (buf.size() < 2)
			return false;
		auto b     = [&](size_t i) { return static_cast<unsigned char>(buf[i]); };
		uint64_t n = b(1) & 127;
		size_t ext = n == 126 ? 2 : n == 127 ? 8 : 0;
		if (buf.size() < pos + ext)
			return false;
		if (ext) {
			n = 0;
			for (size_t i = 0; i != ext; ++i)
				n = n << 8 | b(pos++);
			if ((ext == 2 && n < 126) || (ext == 8 && n < 65536))
				error = "length not in its shortest form";
		}
		Frame f;
		f.fin    = b(0) & 128;
		f.rsv    = (b(0) >> 4) & 7;
		f.op     = b(0) & 15;
		f.masked = b(1) & 128;
		if (f.masked) {
			if (buf.size() < pos + 4)
				return false;
			for (int i = 0; i != 4; ++i)
				f.key = f.key << 8 | b(pos++);
		}
		if (buf.size() - pos < n)
			return false;
		f.data = buf.substr(pos, size_t(n));
		if (f.masked)
			for (size_t i = 0; i != f.data.size(); ++i)
				f.data[i] = char(f.data[i] ^ char(f.key >> (24 - 8 * (i % 4))));
		buf.erase(0, pos + size_t(n));
		out.push_back(f);
		return true;
	}
};

// ---- handshake: SHA-1 and base64 from their definitions
inline std::string sha1(std::string m) {
	uint32_t h[5]  = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	uint64_t bits  = uint64_t(m.size()) * 8;
	auto rol       = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
	m += char(0x80);
	while (m.size() % 64 != 56)
		m += char(0);
	for (int i = 56; i >= 0; i -= 8)
		m += char(bits >> i);
	for (size_t o = 0; o != m.size(); o += 64) {
		uint32_t w[80];
		for (int i = 0; i != 16; ++i) {
			w[i] = 0;
			for (int j = 0; j != 4; ++j)
				w[i] = w[i] << 8 | static_cast<unsigned char>(m[o + size_t(i * 4 + j)]);
		}
		for (int i = 16; i != 80; ++i)
			w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i != 80; ++i) {
			uint32_t f = i < 20 ? (b & c) | (~b & d) : i < 40 ? b ^ c ^ d : i < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
			uint32_t k = i < 20 ? 0x5A827999 : i < 40 ? 0x6ED9EBA1 : i < 60 ? 0x8F1BBCDC : 0xCA62C1D6;
			uint32_t t = rol(a, 5) + f + e + k + w[i];
			e = d, d = c, c = rol(b, 30), b = a, a = t;
		}
		h[0] += a, h[1] += b, h[2] += c, h[3] += d, h[4] += e;
	}
	std::string r;
	for (uint32_t x : h)
		for (int i = 24; i >= 0; i -= 8)
			r += char(x >> i);
	return r;
}
inline std::string base64(const std::string &s) {
	static const char ab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r;
	for (size_t i = 0; i < s.size(); i += 3) {
		uint32_t v = 0;
		for (size_t j = 0; j != 3; ++j)
			v = v << 8 | (i + j < s.size() ? static_cast<unsigned char>(s[i + j]) : 0u);
		for (size_t j = 0; j != 4; ++j)
			r += i + j > s.size() ? '=' : ab[v >> (18 - 6 * j) & 63];
	}
	return r;
}
inline std::string ws_accept(const std::string &key) { return base64(sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }
inline bool utf8(const std::string &s) {  // RFC 3629
	for (size_t i = 0; i < s.size();) {
		auto b = [&](size_t k) -> uint32_t { return i + k < s.size() ? static_cast<unsigned char>(s[i + k]) : 0; };
		auto t = [&](size_t k) { return (b(k) & 0xC0) == 0x80; };
		if (b(0) < 0x80)
			i += 1;
		else if (b(0) >= 0xC2 && b(0) <= 0xDF && t(1))
			i += 2;
		else if ((b(0) & 0xF0) == 0xE0 && t(1) && t(2)) {
			uint32_t v = (b(0) & 15) << 12 | (b(1) & 63) << 6 | (b(2) & 63);
			if (v < 0x800 || (v >= 0xD800 && v <= 0xDFFF))
				return false;
			i += 3;
		} else if ((b(0) & 0xF8) == 0xF0 && t(1) && t(2) && t(3)) {
			uint32_t v = (b(0) & 7) << 18 | (b(1) & 63) << 12 | (b(2) & 63) << 6 | (b(3) & 63);
			if (v < 0x10000 || v > 0x10FFFF)
				return false;
			i += 4;
		} else
			return false;
	}
	return true;
}
inline std::string utf8_char(Gen &g) {
	uint32_t v;
	switch (g.pick({4, 1, 1, 1})) {
	case 0: v = 32 + uint32_t(g.below(95)); break;
	case 1: v = 0x80 + uint32_t(g.below(0x800 - 0x80)); break;
	case 2:
		v = 0x800 + uint32_t(g.below(0x10000 - 0x800));
		if (v >= 0xD800 && v <= 0xDFFF)
			v -= 0x1000;
		break;
	default: v = 0x10000 + uint32_t(g.below(0x110000 - 0x10000));
	}
	std::string r;
	if (v < 0x80)
		r += char(v);
	else if (v < 0x800)
		r += char(0xC0 | v >> 6), r += char(0x80 | (v & 63));
	else if (v < 0x10000)
		r += char(0xE0 | v >> 12), r += char(0x80 | (v >> 6 & 63)), r += char(0x80 | (v & 63));
	else
		r += char(0xF0 | v >> 18), r += char(0x80 | (v >> 12 & 63)), r += char(0x80 | (v >> 6 & 63)), r += char(0x80 | (v & 63));
	return r;
}
// text of about n bytes: a few generated characters repeated
inline std::string text(Gen &g, size_t n) {
	std::string u, r;
	for (size_t k = std::min<size_t>(n, 1 + g.below(12)); k--;)
		u += utf8_char(g);
	while (!u.empty() && r.size() + u.size() <= n)
		r += u;
	r.append(n - r.size(), 'a');
	return r;
}

// body size with a bias to interesting places
inline size_t body_size(Gen &g, size_t big) {
	switch (g.pick({8, 4, 4, 4, 2, 1})) {
	case 5: return std::min(big, g.of(std::vector<size_t>{125, 126, 127, 1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536, 65537}));
	case 0: return g.below(20);
	case 1: return 0;
	case 2: return g.below(3000);
	case 3: return 4000 + g.below(9000);
	default: return g.below(big);
	}
}
inline std::string chunked(Gen &g, const std::string &body) {
	std::string r;
	char b[40];
	for (size_t i = 0; i < body.size();) {
		size_t n = 1 + g.below(std::min<size_t>(body.size() - i, g.flag() ? 20 : 5000));
		snprintf(b, sizeof(b), g.flag() ? "%zx" : "%zX", n);
		r += std::string(g.chance(1, 6) ? "00" : "") + b + (g.chance(1, 6) ? ";ext=1" : "") + "\r\n";
		r.append(body, i, n);
		r += "\r\n";
		i += n;
	}
	return r + "0\r\n" + (g.chance(1, 6) ? "X-Trailer: 1\r\n" : "") + "\r\n";
}
}  // namespace hn
