// Generators of HTTP message heads (abstract value + one of many legal renderings) and canonical
// dumps used to compare what the parsers produce with what was meant.
#pragma once
#include <crab/crab.hpp>
#include <algorithm>
#include <map>
#include "../pbt.hpp"

namespace hg {
using pbt::Ctx;
using pbt::Gen;
using namespace crab;

inline std::string q(const std::string &s) { return "\"" + Ctx::esc(s, 20000) + "\""; }

inline std::string dump_common(const http::RequestResponseHeader &h) {
	std::ostringstream s;
	s << " v=" << h.http_version_major << "." << h.http_version_minor << " ka=" << h.keep_alive << " cl=";
	if (h.content_length)
		s << *h.content_length;
	else
		s << "none";
	s << " ch=" << h.transfer_encoding_chunked << " te=";
	for (auto &t : h.transfer_encodings)
		s << q(t);
	s << " up=" << h.connection_upgrade << h.upgrade_websocket << " mime=" << q(h.content_type_mime) << " suf=" << q(h.content_type_suffix);
	for (auto &x : h.headers)
		s << " H:" << q(x.name) << "=" << q(x.value);
	return s.str();
}
inline std::string dump(const http::RequestHeader &h) {
	return "m=" + q(h.method) + " p=" + q(h.path) + " q=" + q(h.query_string) + " host=" + q(h.host) + " or=" + q(h.origin) + " au=" +
	       q(h.basic_authorization) + " wk=" + q(h.sec_websocket_key) + " wv=" + q(h.sec_websocket_version) + dump_common(h);
}
inline std::string dump(const http::ResponseHeader &h) {
	return "st=" + std::to_string(h.status) + " tx=" + q(h.status_text) + " date=" + q(h.date) + " srv=" + q(h.server) + " wa=" +
	       q(h.sec_websocket_accept) + dump_common(h);
}

static const std::string ALNUM = "aAbBzZ019xYmMkK";
static const std::string TOKEN = "aAbBcCzZ0189-_.!#$%&'*+^`|~";
static const std::string VALCH = "aZ09 ,;:=()<>@\\\"/[]?{}!#$%&'*+-.^_`|~";

inline std::string token(Gen &g, size_t max = 10) { return g.str(1 + g.below(max), TOKEN); }
// header value without leading/trailing blanks, without control characters
inline std::string value(Gen &g, size_t max = 24, bool comma = true) {
	size_t n = g.below(max + 1);
	std::string r;
	for (size_t i = 0; i != n; ++i) {
		char c;
		if (g.chance(1, 12))
			c = char(128 + g.below(128));
		else
			c = VALCH[g.below(VALCH.size())];
		if (!comma && c == ',')
			c = '.';
		if (c == ' ' && (i == 0 || i + 1 == n))
			c = 'x';
		r += c;
	}
	return r;
}
inline std::string rnd_case(Gen &g, std::string s) {
	if (g.chance(1, 2))
		for (auto &c : s)
			if (g.flag())
				c = char(toupper(c));
	return s;
}
inline std::string lower(std::string s) {
	for (auto &c : s)
		if (c >= 'A' && c <= 'Z')
			c = char(c + 32);
	return s;
}
inline std::string sp(Gen &g, size_t min, bool tabs) {
	size_t n = min + (g.chance(1, 4) ? g.below(3) : 0);
	std::string r(n, ' ');
	if (tabs)
		for (auto &c : r)
			if (g.chance(1, 4))
				c = '\t';
	return r;
}
inline uint64_t content_length(Gen &g) {
	switch (g.pick({4, 2, 1, 1})) {
	case 0: return g.below(2000);
	case 1: return g.below(0x100000000ULL) + 65536;
	case 2: return g.u64();
	default: return ~uint64_t(0) - g.below(3);
	}
}

// an abstract head and how it is written
struct Head {
	bool request = true;
	http::RequestHeader rq;
	http::ResponseHeader rs;
	// header lines in order of rendering: name as in canonical lower case, value as rendered (before blanks)
	std::vector<std::pair<std::string, std::string>> lines;
	http::RequestResponseHeader &common() {
		if (request)
			return rq;
		return rs;
	}
	std::string dump_() const { return request ? dump(rq) : dump(rs); }
	std::string start_line;  // without line end
	std::string text;
	size_t framing_headers = 0;
};

struct Liberty {
	bool lf = true, blanks = true, folding = true, casing = true, leading_lines = true, percent = true;
	size_t max_headers = 6;
};

static const char *const RESERVED_NAMES[] = {"content-length", "transfer-encoding", "host", "origin", "content-type", "connection",
    "authorization", "upgrade", "sec-websocket-key", "sec-websocket-version", "sec-websocket-accept", "date", "server"};

inline std::string free_header_name(Gen &g) {
	std::string n = g.chance(1, 3) ? std::string(g.of({"x-a", "cookie", "accept", "etag", "x-forwarded-for", "content-type2", "hos", "hosts", "connectio", "dat", "content-lengt", "te"}))
	                               : lower(token(g));
	for (auto r : RESERVED_NAMES)
		if (n == r)
			n += "x";
	return n;
}

inline std::string render_path(Gen &g, const std::string &path, bool percent) {
	static const char hx[] = "0123456789abcdef", HX[] = "0123456789ABCDEF";
	std::string r;
	for (unsigned char c : path) {
		bool must = c <= 32 || c == 127 || c == '#' || c == '?' || c == '%';
		if (must || (percent && g.chance(1, 10))) {
			const char *t = g.flag() ? hx : HX;
			r += '%';
			r += t[c >> 4];
			r += (g.flag() ? hx : HX)[c & 15];
		} else
			r += char(c);
	}
	return r;
}

inline void gen_headers(Gen &g, Head &h, const Liberty &lb) {
	auto &c = h.common();
	size_t n = g.below(lb.max_headers + 1);
	bool used_cl = false, used_ct = false, used_host = false, used_or = false, used_au = false, used_up = false, used_k = false, used_v = false,
	     used_d = false, used_s = false, used_te = false;
	int conn_dir = 0;  // 0 none 1 close 2 keep
	for (size_t i = 0; i != n; ++i) {
		switch (g.pick({6, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1})) {
		case 0: {
			std::string nm = free_header_name(g), v = value(g);
			h.lines.emplace_back(nm, v);
			c.headers.push_back(http::Header{nm, v});
			break;
		}
		case 1: {
			if (used_cl)
				break;
			used_cl          = true;
			c.content_length = content_length(g);
			h.lines.emplace_back("content-length", std::to_string(*c.content_length));
			h.framing_headers++;
			break;
		}
		case 2: {  // transfer-encoding: other codings, then optionally chunked last; identity transparent
			if (used_te)
				break;
			used_te = true;
			std::string v;
			size_t k = g.below(3);
			for (size_t j = 0; j != k; ++j) {
				std::string e = g.of({"gzip", "deflate", "br", "x-a"});
				v += (v.empty() ? "" : lb.blanks && g.flag() ? " ,  " : ",") + rnd_case(g, e);
				c.transfer_encodings.push_back(e);
			}
			if (g.chance(1, 4))
				v += (v.empty() ? "" : ", ") + rnd_case(g, "identity");
			bool two_lines = !v.empty() && g.chance(1, 3);
			if (two_lines) {
				h.lines.emplace_back("transfer-encoding", v);
				v.clear();
			}
			if (v.empty() || (h.request && !c.transfer_encodings.empty()) || g.chance(2, 3)) {
				if (lb.blanks && g.chance(1, 4))
					v += ",";
				v += (v.empty() ? "" : ", ") + rnd_case(g, "chunked");
				c.transfer_encoding_chunked = true;
			}
			h.lines.emplace_back("transfer-encoding", v);
			h.framing_headers++;
			break;
		}
		case 3: {
			std::string v;
			size_t k = 1 + g.below(3);
			for (size_t j = 0; j != k; ++j) {
				std::string e;
				size_t w = g.pick({2, 2, 2});
				if (w == 0 && conn_dir != 2)
					e = "close", conn_dir = 1;
				else if (w == 1 && conn_dir != 1)
					e = "keep-alive", conn_dir = 2;
				else
					e = "upgrade", c.connection_upgrade = true;
				v += (v.empty() ? "" : lb.blanks && g.flag() ? "  ,  " : ",") + rnd_case(g, e);
			}
			if (lb.blanks && g.chance(1, 5))
				v += " , ,";
			h.lines.emplace_back("connection", v);
			break;
		}
		case 4: {
			if (used_ct)
				break;
			used_ct         = true;
			std::string m   = lower(token(g, 5)) + "/" + lower(token(g, 6));
			std::string suf = g.chance(1, 2) ? "charset=" + token(g) : std::string();
			c.content_type_mime   = m;
			c.content_type_suffix = suf;
			h.lines.emplace_back("content-type", rnd_case(g, m) + (suf.empty() ? "" : (lb.blanks ? sp(g, 0, false) : "") + ";" + (lb.blanks ? sp(g, 0, false) : " ") + suf));
			break;
		}
		case 5:
			if (used_up)
				break;
			used_up             = true;
			c.upgrade_websocket = true;
			h.lines.emplace_back("upgrade", rnd_case(g, "websocket"));
			break;
		case 6:
			if (h.request ? used_host : used_d)
				break;
			used_host = used_d = true;
			if (h.request) {
				h.rq.host = value(g);
				h.lines.emplace_back("host", h.rq.host);
			} else {
				h.rs.date = value(g);
				h.lines.emplace_back("date", h.rs.date);
			}
			break;
		case 7:
			if (h.request ? used_or : used_s)
				break;
			used_or = used_s = true;
			if (h.request) {
				h.rq.origin = value(g);
				h.lines.emplace_back("origin", h.rq.origin);
			} else {
				h.rs.server = value(g);
				h.lines.emplace_back("server", h.rs.server);
			}
			break;
		case 8:
			if (used_k)
				break;
			used_k = true;
			if (h.request) {
				h.rq.sec_websocket_key = value(g);
				h.lines.emplace_back("sec-websocket-key", h.rq.sec_websocket_key);
			} else {
				h.rs.sec_websocket_accept = value(g);
				h.lines.emplace_back("sec-websocket-accept", h.rs.sec_websocket_accept);
			}
			break;
		case 9:
			if (used_v || !h.request)
				break;
			used_v                     = true;
			h.rq.sec_websocket_version = g.of({"13", "8", "x"});
			h.lines.emplace_back("sec-websocket-version", h.rq.sec_websocket_version);
			break;
		default:
			if (used_au || !h.request)
				break;
			used_au = true;
			if (g.chance(1, 4)) {
				h.lines.emplace_back("authorization", g.of({"bearer ", "basix ", "basicx ", "basic-", "xasic ", "bxsic ", "baxic ", "basxc ", "bas ic ", "basi c "}) + token(g));
			} else {
				std::string t            = token(g, 12);
				h.rq.basic_authorization = t;
				h.lines.emplace_back("authorization", rnd_case(g, "basic") + (lb.blanks ? sp(g, 1, false) : " ") + t);
			}
			break;
		}
	}
	c.keep_alive = conn_dir == 1 ? false : conn_dir == 2 ? true : (c.http_version_major == 1 && c.http_version_minor >= 1);
}

inline bool is_list(const std::string &n) { return n == "connection" || n == "transfer-encoding"; }

inline void gen_version(Gen &g, http::RequestResponseHeader &c) {
	switch (g.pick({6, 3, 1})) {
	case 0: c.http_version_major = 1, c.http_version_minor = 1; break;
	case 1: c.http_version_major = 1, c.http_version_minor = 0; break;
	default: c.http_version_major = int(g.below(2)), c.http_version_minor = int(g.below(100)); break;
	}
}

inline std::string eol(Gen &g, const Liberty &lb) { return lb.lf && g.chance(1, 5) ? "\n" : "\r\n"; }

// builds the text from start line + lines
inline void render(Gen &g, Head &h, const Liberty &lb) {
	std::string t;
	if (h.request && lb.leading_lines && g.chance(1, 6))
		for (size_t i = 0, n = 1 + g.below(3); i != n; ++i)
			t += eol(g, lb);
	t += h.start_line;
	t += eol(g, lb);
	for (auto &l : h.lines) {
		std::string name = l.first, v = l.second;
		if (lb.casing)
			name = rnd_case(g, name);
		t += name;
		if (lb.blanks && g.chance(1, 8))
			t += sp(g, 1, true);
		t += ":";
		t += lb.blanks ? sp(g, 0, true) : " ";
		// folding: replace one inner blank by a line break followed by that blank
		if (lb.folding && !is_list(l.first) && g.chance(1, 6)) {
			size_t p = v.find(' ');
			if (p != std::string::npos && p > 0 && v[p - 1] != ' ')
				v = v.substr(0, p) + eol(g, lb) + v.substr(p);
		}
		t += v;
		if (lb.blanks && g.chance(1, 6))
			t += sp(g, 1, false);
		t += eol(g, lb);
	}
	t += eol(g, lb);
	h.text = t;
}

inline Head gen_request(Gen &g, const Liberty &lb) {
	Head h;
	h.request   = true;
	h.rq.method = g.chance(2, 3) ? std::string(g.of({"GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD"})) : token(g, 8);
	size_t n    = g.below(20);
	h.rq.path   = g.chance(1, 12) ? "*" : "/";
	for (size_t i = 0; i != n; ++i)
		h.rq.path += g.chance(1, 6) ? char(g.below(256)) : g.of({"a", "/", ".", "-", "Z", "0", "~", "+", "&", "="})[0];
	std::string uri = render_path(g, h.rq.path, lb.percent);
	if (g.chance(1, 2)) {
		static const std::string QC = "aZ0=&+%/?:@!$'()*,;-._~[]{}|\\\"";
		h.rq.query_string = g.str(g.below(20), QC);
		if (g.chance(1, 8))
			h.rq.query_string += char(128 + g.below(128));
		uri += "?" + h.rq.query_string;
	}
	if (g.chance(1, 10))
		uri += "#" + g.str(g.below(6), "ab?#%/");
	gen_version(g, h.rq);
	h.start_line = h.rq.method + (lb.blanks ? sp(g, 1, true) : " ") + uri + (lb.blanks ? sp(g, 1, true) : " ") + "HTTP/" +
	               std::to_string(h.rq.http_version_major) + "." + std::to_string(h.rq.http_version_minor) + (lb.blanks && g.chance(1, 8) ? sp(g, 1, true) : "");
	gen_headers(g, h, lb);
	render(g, h, lb);
	return h;
}

inline Head gen_response(Gen &g, const Liberty &lb) {
	Head h;
	h.request   = false;
	h.rs.status = int(g.chance(2, 3) ? std::vector<int>{200, 101, 404, 500, 204}[g.below(5)] : g.below(1000));
	h.rs.status_text = g.chance(1, 5) ? std::string() : value(g, 16);
	gen_version(g, h.rs);
	char code[8];
	snprintf(code, sizeof(code), "%03d", h.rs.status);
	h.start_line = "HTTP/" + std::to_string(h.rs.http_version_major) + "." + std::to_string(h.rs.http_version_minor) + (lb.blanks ? sp(g, 1, true) : " ") + code;
	if (h.rs.status_text.empty()) {
		if (lb.blanks && g.flag())
			h.start_line += " ";
	} else
		h.start_line += (lb.blanks ? sp(g, 1, true) : " ") + h.rs.status_text + (lb.blanks && g.chance(1, 6) ? "  " : "");
	gen_headers(g, h, lb);
	render(g, h, lb);
	return h;
}

// ---- feeding parsers -------------------------------------------------------------------------
struct Outcome {
	int kind = 0;  // 0 incomplete, 1 good, 2 error
	size_t consumed = 0;
	std::string dump;
	std::string what;
	std::string brief() const {
		return std::string(kind == 0 ? "incomplete" : kind == 1 ? "good" : "error(" + what + ")") + " consumed=" + std::to_string(consumed) + (kind == 1 ? " " + dump : "");
	}
};
template<class P, class D>
Outcome feed_ptr(P &p, const std::string &in, const std::vector<size_t> &cuts, D dumper) {
	Outcome o;
	const uint8_t *d = uint8_cast(in.data());
	size_t pos = 0;
	if (p.is_good()) {
		o.kind = 1;
		o.dump = dumper(p);
		return o;
	}
	try {
		for (size_t c : cuts) {
			// exact-size heap copy so that reading past the chunk is caught
			std::vector<uint8_t> part(d + pos, d + pos + c);
			const uint8_t *b = part.data();
			const uint8_t *e = p.parse(b, b + c);
			o.consumed += size_t(e - b);
			pos += c;
			if (p.is_good()) {
				o.kind = 1;
				o.dump = dumper(p);
				return o;
			}
			if (size_t(e - b) != c)
				throw std::logic_error("parser stopped before end of chunk without being good");
		}
	} catch (const std::logic_error &) {
		throw;
	} catch (const std::exception &e) {
		o.kind = 2;
		o.what = e.what();
	}
	return o;
}
// through a circular buffer that starts at a random offset, so that data wraps around
template<class P, class D>
Outcome feed_buffer(P &p, const std::string &in, const std::vector<size_t> &cuts, size_t cap, size_t offset, D dumper) {
	Outcome o;
	Buffer buf(cap);
	if (offset) {
		std::vector<uint8_t> junk(offset);
		buf.write_some(junk.data(), offset);
		// keep one byte so that positions are not reset, then consume it after the first write
		buf.did_read(offset - 1);
	}
	bool drop = offset != 0;
	if (p.is_good()) {
		o.kind = 1;
		o.dump = dumper(p);
		return o;
	}
	size_t pos = 0, fed = 0;
	try {
		for (size_t c : cuts) {
			size_t end = pos + c;
			while (pos != end) {
				size_t w = buf.write_some(uint8_cast(in.data()) + pos, end - pos);
				pos += w;
				fed += w;
				if (drop) {
					buf.did_read(1);
					drop = false;
				}
				size_t before = buf.size();
				while (!buf.empty() && !p.is_good()) {
					size_t b = buf.size();
					p.parse(buf);
					if (buf.size() == b)
						throw std::logic_error("parser made no progress on non-empty buffer");
				}
				(void)before;
				o.consumed = fed - buf.size();
				if (p.is_good()) {
					o.kind = 1;
					o.dump = dumper(p);
					return o;
				}
				if (w == 0 && buf.size() == cap)
					throw std::logic_error("buffer full but parser not good");
			}
		}
	} catch (const std::logic_error &) {
		throw;
	} catch (const std::exception &e) {
		o.kind = 2;
		o.what = e.what();
	}
	return o;
}

}  // namespace hg
