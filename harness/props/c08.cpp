#include <crab/crab.hpp>
#include "../pbt.hpp"
const char *const PROP_ID   = "C08";
const char *const PROP_RULE =
    "URIs rendered from generated components (scheme, optional user[:password], host, optional port, path segments incl. '.', '..', '%2e', empty, malformed escapes, optional query), parsed whole and in "
    "pieces, compared with the components and a reference dot-segment remover, then written with to_string and parsed again; defective URIs must be refused; non-trivial: a dot segment, an escape or credentials present, or a defect";
using namespace crab;
using namespace pbt;

static int hexv(char c) {
	if (c >= '0' && c <= '9')
		return c - '0';
	if (c >= 'a' && c <= 'f')
		return c - 'a' + 10;
	if (c >= 'A' && c <= 'F')
		return c - 'A' + 10;
	return -1;
}
static std::string decode(const std::string &s) {
	std::string r;
	for (size_t i = 0; i < s.size(); ++i)
		if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) {
			r += char(hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
			i += 2;
		} else
			r += s[i];
	return r;
}
struct Parts {
	std::string scheme, user, host, port, path, query;
	std::string str() const {
		return "scheme[" + Ctx::esc(scheme) + "] user[" + Ctx::esc(user) + "] host[" + Ctx::esc(host) + "] port[" + Ctx::esc(port) + "] path[" + Ctx::esc(path) + "] query[" + Ctx::esc(query) + "]";
	}
};
static Parts of(const http::URI &u) { return Parts{u.scheme, u.user_info, u.host, u.port, u.path, u.query}; }

static http::URI parse(Gen &g, const std::string &text, bool pieces) {
	if (!pieces)
		return http::parse_uri(text);
	http::URIParser p;
	size_t pos = 0;
	for (auto k : g.chunks(text.size())) {
		p.parse(text.data() + pos, text.data() + pos + k);
		pos += k;
	}
	p.parse_end();
	return p.uri;
}
void prop_case(Gen &g, Ctx &c) {
	static const std::string unres = "abcXYZ019-._~";
	if (g.chance(1, 6)) {
		std::string text = g.of({"", "http", "http:", "http:/", "http:x//h/", "http:/x/h", "http//h", "/path", "?q", "a@b", "http:\\\\h\\"});
		if (g.chance(1, 4))
			text = "http://a@b@host/p";
		else if (g.chance(1, 4))
			text = "http://u:p@v:q@host:80/p";
		PBT_LOG(c, "defective [" << text << "]\n");
		c.cls("defective");
		c.nontrivial();
		bool pieces = g.flag();
		try {
			auto u = parse(g, text, pieces);
			c.fail("defective-uri-accepted", text + " -> " + of(u).str());
		} catch (const std::runtime_error &) {
		}
		return;
	}
	Parts want;
	std::string text;
	bool nt     = false;
	want.scheme = g.of({"http", "https", "ws", "wss", "a+b-c.1"});
	text        = want.scheme + "://";
	if (g.chance(1, 3)) {
		nt = true;
		want.user = g.flag() ? g.bytes(g.urange(1, 6)) : g.str(g.urange(1, 6), "user:@/%?");
		if (g.flag()) {
			std::string pass = g.bytes(g.urange(0, 6));
			text += http::url_encode(want.user) + ":" + http::url_encode(pass) + "@";
			want.user += ":" + pass;
		} else
			text += http::url_encode(want.user) + "@";
		c.cls("credentials");
	}
	if (g.chance(1, 8)) {
		want.host = g.of({"[::1]", "[2001:db8::7:0]", "[::ffff:1.2.3.4]", "[fe80::1]", "[::]"});
		c.cls("IPv6 literal");
	} else
		want.host = g.chance(1, 4) ? "127.0.0.1" : g.str(g.urange(1, 10), "abcXYZ09-.");
	text += want.host;
	if (g.chance(1, 3)) {
		want.port = std::to_string(g.below(65536));
		text += ":" + want.port;
	}
	// path
	std::vector<std::string> out;
	size_t n = g.chance(1, 6) ? 0 : g.urange(1, 7);
	for (size_t i = 0; i != n; ++i) {
		std::string s;
		switch (g.pick({6, 3, 2, 2, 2, 3, 3})) {
		case 0: s = g.str(g.urange(1, 5), unres); break;
		case 1: s = ".."; break;
		case 2: s = "."; break;
		case 3: s = ""; break;
		case 4: s = g.of({"%2e%2e", "%2E.", ".%2e", "%2e", "...", "..%20", "%2e%2e%2e"}); break;
		case 5: {
			std::string d = g.bytes(g.urange(1, 4));
			for (auto &ch : d)
				if (ch == '/')
					ch = 'x';
			s = http::url_encode(d);
			break;
		}
		default: s = g.of({"%", "a%", "%4", "%zz", "%4g", "%%", "..%", "%..", "%%2e", "a%%41", "%4%41", "%2e%"}); break;
		}
		text += "/" + s;
		std::string d = decode(s);
		nt |= s.find('%') != std::string::npos;
		bool last = i + 1 == n;
		if (d == "..") {
			nt = true;
			c.cls(last ? "final dot-dot" : "dot-dot");
			if (!out.empty())
				out.pop_back();
			if (last)
				out.push_back("");
		} else if (d == ".") {
			nt = true;
			c.cls("dot");
			if (last)
				out.push_back("");
		} else
			out.push_back(d);
	}
	for (auto &s : out)
		want.path += "/" + s;
	if (out.empty())
		want.path = "/";
	if (g.chance(1, 2)) {
		want.query = g.str(g.urange(0, 12), "abc=&%41?/:@+.");
		text += "?" + want.query;
		if (n == 0)
			c.cls("query without path");
	}
	PBT_LOG(c, "uri [" << Ctx::esc(text) << "] expected " << want.str() << "\n");
	if (nt)
		c.nontrivial();
	auto cmp = [&](const Parts &got, const char *sig) {
		if (got.str() != want.str())
			c.fail(sig, "[" + Ctx::esc(text) + "] got " + got.str() + " expected " + want.str());
	};
	bool pieces = g.flag();
	http::URI u;
	try {
		u = parse(g, text, pieces);
	} catch (const std::exception &ex) {
		c.fail("legal-uri-refused", Ctx::esc(text) + ": " + ex.what());
	}
	cmp(of(u), "uri-components");
	std::string again = u.to_string();
	PBT_LOG(c, "to_string [" << Ctx::esc(again) << "]\n");
	try {
		u = parse(g, again, g.flag());
	} catch (const std::exception &ex) {
		c.fail("own-uri-refused", Ctx::esc(again) + ": " + ex.what());
	}
	cmp(of(u), "uri-round-trip");
}
