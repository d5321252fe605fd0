#include <crab/crab.hpp>
#include <map>
#include "../pbt.hpp"
const char *const PROP_ID   = "C07";
const char *const PROP_RULE =
    "query strings / form bodies built from generated key=value byte strings with every byte raw, '+', upper/lower percent-escaped or via url_encode, joined by '&' with empty segments; free text over a "
    "separator-rich alphabet judged by a reference decoder; cookie headers with blanks and odd segments; url_encode/url_decode on arbitrary bytes; non-trivial: contains a percent sign, or >=2 pairs";
using namespace crab;
using namespace pbt;
typedef std::map<std::string, std::string> M;

static int hexv(char c) {
	if (c >= '0' && c <= '9')
		return c - '0';
	if (c >= 'a' && c <= 'f')
		return c - 'a' + 10;
	if (c >= 'A' && c <= 'F')
		return c - 'A' + 10;
	return -1;
}
static std::string ref_decode(const std::string &s, bool plus) {
	std::string r;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%' && i + 2 < s.size() + 0 && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) {
			r += char(hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
			i += 2;
		} else if (plus && s[i] == '+')
			r += ' ';
		else
			r += s[i];
	}
	return r;
}
static void ref_query(const std::string &s, M &m) {
	size_t pos = 0;
	while (pos <= s.size()) {
		size_t e = s.find('&', pos);
		if (e == std::string::npos)
			e = s.size();
		std::string seg = s.substr(pos, e - pos);
		if (!seg.empty()) {
			size_t q      = seg.find('=');
			std::string k = seg.substr(0, q), v = q == std::string::npos ? "" : seg.substr(q + 1);
			m[ref_decode(k, true)] = ref_decode(v, true);
		}
		pos = e + 1;
	}
}
static std::string trim(const std::string &s, bool left = true) {
	size_t a = 0, b = s.size();
	while (left && a < b && (s[a] == ' ' || s[a] == '\t'))
		++a;
	while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\t'))
		--b;
	return s.substr(a, b - a);
}
static void ref_cookie(const std::string &s, M &m) {
	size_t pos = 0;
	while (pos <= s.size()) {
		size_t e = s.find(';', pos);
		if (e == std::string::npos)
			e = s.size();
		std::string seg = s.substr(pos, e - pos);
		if (!trim(seg).empty()) {
			size_t q         = seg.find('=');
			m[trim(seg.substr(0, q))] = q == std::string::npos ? "" : trim(seg.substr(q + 1));
		}
		pos = e + 1;
	}
}
static std::string show(const M &m) {
	std::string r;
	for (auto &p : m)
		r += "[" + Ctx::esc(p.first) + "]=[" + Ctx::esc(p.second) + "] ";
	return r;
}
template<class U>
static M to_map(const U &u) {
	return M(u.begin(), u.end());
}
static std::string gen_bytes(Gen &g, size_t max) {
	size_t n = g.len(max);
	return g.flag() ? g.bytes(n) : g.str(n, "abc%&=+;/? 09AF\xd0\xff");
}
static std::string spell(Gen &g, const std::string &s, bool form, bool is_key) {
	static const char up[] = "0123456789ABCDEF", lo[] = "0123456789abcdef";
	std::string r;
	unsigned style = unsigned(g.below(3));  // 0: library encoder, 1: minimal, 2: random
	if (style == 0)
		return http::url_encode(s);
	for (unsigned char c : s) {
		bool must = c == '%' || c == '&' || c == '+' || (is_key && c == '=');
		if (form && c == ' ' && (style == 1 || g.flag())) {
			r += '+';
			continue;
		}
		if (must || (style == 2 && g.flag())) {
			const char *h = g.flag() ? up : lo;
			r += '%';
			r += h[c >> 4];
			r += h[c & 15];
		} else
			r += char(c);
	}
	return r;
}
static M parse_pieces(Gen &g, const std::string &text) {
	http::QueryParser p;
	size_t pos = 0;
	for (auto k : g.chunks(text.size())) {
		p.parse(text.data() + pos, text.data() + pos + k);
		pos += k;
	}
	p.parse_end();
	return to_map(p.parsed);
}
static void compare(Ctx &c, const M &got, const M &want, const char *sig, const std::string &text) {
	if (got != want)
		c.fail(sig, "text [" + Ctx::esc(text) + "] got " + show(got) + " expected " + show(want));
}
void prop_case(Gen &g, Ctx &c) {
	switch (g.pick({4, 4, 3, 2, 2})) {
	case 0: {  // round trip
		c.cls("query round trip");
		M want;
		std::string text;
		size_t n = g.urange(0, 5);
		for (size_t i = 0; i != n; ++i) {
			std::string k = gen_bytes(g, 12), v = gen_bytes(g, 20);
			if (i && g.chance(1, 5))
				k = want.begin()->first;
			std::string sk = spell(g, k, true, true), sv = spell(g, v, true, false);
			if (i)
				text += g.chance(1, 6) ? "&&" : "&";
			if (v.empty() && !sk.empty() && g.flag())
				text += sk;
			else
				text += sk + "=" + sv;
			want[k] = v;
		}
		PBT_LOG(c, "text [" << Ctx::esc(text) << "] pairs " << show(want) << "\n");
		if (n > 1 || text.find('%') != std::string::npos)
			c.nontrivial();
		compare(c, to_map(http::parse_query_string(text)), want, "query-round-trip", text);
		compare(c, parse_pieces(g, text), want, "query-pieces", text);
		break;
	}
	case 1: {  // free text against the reference decoder
		c.cls("query free text");
		std::string text = g.str(g.len(40), g.flag() ? "%&=+41a" : "%&=+;4fFgz \xd0\x00x");
		PBT_LOG(c, "text [" << Ctx::esc(text) << "]\n");
		if (text.find('%') != std::string::npos)
			c.nontrivial();
		M want;
		ref_query(text, want);
		compare(c, to_map(http::parse_query_string(text)), want, "query-decode", text);
		compare(c, parse_pieces(g, text), want, "query-pieces", text);
		break;
	}
	case 2: {  // cookies
		c.cls("cookie");
		http::Request rq;
		M want;
		size_t n = g.urange(1, 3);
		for (size_t i = 0; i != n; ++i) {
			std::string text;
			if (g.flag())
				text = g.str(g.len(40), " \t;;==ab\x01\xd0");
			else {
				size_t k = g.urange(0, 4);
				for (size_t j = 0; j != k; ++j)
					text += (j ? g.of({";", "; ", " ;\t"}) : "") + g.str(g.len(8), "abcXY$_%&") + g.of({"=", " = ", "= "}) + g.str(g.len(12), "abc=,%&/ z");
			}
			rq.header.headers.push_back(http::Header{g.chance(1, 6) ? "x-cookie" : "cookie", text});
			PBT_LOG(c, rq.header.headers.back().name << ": [" << Ctx::esc(text) << "]\n");
			if (rq.header.headers.back().name == "cookie")
				ref_cookie(text, want);
			M one;
			ref_cookie(text, one);
			compare(c, to_map(http::parse_cookie_string(text)), one, "cookie-decode", text);
			http::CookieParser p;
			size_t pos = 0;
			for (auto ch : g.chunks(text.size())) {
				p.parse(text.data() + pos, text.data() + pos + ch);
				pos += ch;
			}
			p.parse_end();
			compare(c, to_map(p.parsed), one, "cookie-pieces", text);
		}
		if (want.size() > 1)
			c.nontrivial();
		compare(c, to_map(rq.parse_cookies()), want, "cookies-of-request", "");
		break;
	}
	case 3: {  // request parameters: query then form body
		c.cls("request parameters");
		http::Request rq;
		std::string q = g.str(g.len(20), "%&=+41a"), b = g.str(g.len(20), "%&=+42b");
		rq.header.method            = g.of({"GET", "POST", "PUT"});
		rq.header.query_string      = q;
		rq.header.content_type_mime = g.of({"application/x-www-form-urlencoded", "text/plain", ""});
		rq.set_body(std::string(b));
		PBT_LOG(c, rq.header.method << " " << rq.header.content_type_mime << " query [" << q << "] body [" << b << "]\n");
		M want;
		ref_query(q, want);
		if (rq.header.method != "GET" && rq.header.content_type_mime == "application/x-www-form-urlencoded")
			ref_query(b, want);
		if (want.size() > 1)
			c.nontrivial();
		compare(c, to_map(rq.parse_query_params()), want, "request-params", q + " | " + b);
		break;
	}
	default: {
		c.cls("url_encode/url_decode");
		std::string d = gen_bytes(g, 60);
		bool path     = g.flag();
		std::string e = http::url_encode(d, path);
		PBT_LOG(c, "data [" << Ctx::esc(d) << "] encoded [" << Ctx::esc(e) << "]\n");
		if (e.find('%') != std::string::npos)
			c.nontrivial();
		c.eq(http::url_decode(e), d, "url-round-trip", "decoded");
		for (unsigned char ch : e)
			c.check(ch > 32 && ch < 127 && !strchr("!#$&'()*+,:;=?@[]", ch) && (ch != '/' || path), "url-encode-alphabet", "encoded text holds a reserved or non-printable byte: " + Ctx::esc(e));
		for (size_t i = 0; i < e.size(); ++i)
			if (e[i] == '%')
				c.check(i + 2 < e.size() && hexv(e[i + 1]) >= 0 && hexv(e[i + 2]) >= 0, "url-encode-alphabet", "bad escape in " + Ctx::esc(e));
		std::string f = g.str(g.len(30), "%%41aAfFgz+ &\xd0");
		PBT_LOG(c, "free [" << Ctx::esc(f) << "]\n");
		c.eq(http::url_decode(f), ref_decode(f, false), "url-decode", "decoded");
	}
	}
}
