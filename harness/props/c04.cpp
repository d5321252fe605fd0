#include "../ref/http_gen.hpp"
const char *const PROP_ID   = "C04";
const char *const PROP_RULE =
    "a request or response value is generated, written by the library's serialiser and read back by the library's parser in generated chunks; every field must come back; "
    "also URI text set on a request reads back; non-trivial: at least one header field besides the start line";
using namespace crab;
using namespace hg;

// fields a sender can set so that the wire format can carry them: values without leading/trailing blanks or line breaks,
// one keep-alive/close/upgrade statement per message (that is what the format writes)
void prop_case(Gen &g, pbt::Ctx &c) {
	Liberty lb;
	bool rq = g.chance(1, 2);
	Head h  = rq ? gen_request(g, lb) : gen_response(g, lb);
	auto &m = h.common();
	if (m.http_version_major != 1 || m.http_version_minor > 1)
		m.http_version_major = 1, m.http_version_minor = int(g.below(2));
	m.keep_alive = g.flag();
	bool plain11 = m.http_version_minor == 1 && m.keep_alive;
	if (plain11 && g.chance(1, 3))
		m.connection_upgrade = m.upgrade_websocket = true;
	else
		m.connection_upgrade = m.upgrade_websocket = false;
	std::string text;
	if (rq) {
		for (char &ch : h.rq.query_string)
			if (ch == '#')
				ch = '_';
		text = h.rq.to_string();
	} else {
		if (h.rs.status < 100)
			h.rs.status += 100;
		text = h.rs.to_string();
	}
	c.cls(rq ? "request" : "response");
	if (m.transfer_encoding_chunked && !m.transfer_encodings.empty())
		c.cls("coding-then-chunked");
	if (std::count(text.begin(), text.end(), '\n') > 2)
		c.nontrivial();
	PBT_LOG(c, Ctx::esc(text, 1500) << "\n");
	std::string in = text + "TAIL";
	auto cuts      = g.chunks(in.size());
	Outcome o;
	std::string want;
	if (rq) {
		http::RequestParser p;
		o    = feed_ptr(p, in, cuts, [](http::RequestParser &x) { return dump(x.req); });
		want = dump(h.rq);
		// uri accessors
		http::RequestHeader r2;
		if (g.flag())
			r2.query_string = "old=1";
		// any spelling of the path: every byte that cannot stand in a path is escaped, any other one may be
		std::string uri;
		bool spelled = false;
		for (char ch : h.rq.path) {
			auto u    = (unsigned char)ch;
			bool must = u <= 32 || u >= 127 || ch == '%' || ch == '?' || ch == '#';
			if (!must && !g.chance(1, 8)) {
				uri += ch;
				continue;
			}
			const char *hex = g.flag() ? "0123456789abcdef" : "0123456789ABCDEF";
			uri += '%';
			uri += hex[u >> 4];
			uri += hex[u & 15];
			spelled = true;
		}
		if (!h.rq.query_string.empty())
			uri += "?" + h.rq.query_string;
		r2.set_uri(uri);
		c.eq(r2.path, h.rq.path, "set-uri", "path");
		c.eq(r2.query_string, h.rq.query_string, "set-uri", "query");
		if (spelled)
			c.cls("uri with escapes");
		std::string back = r2.get_uri();
		for (char ch : back.substr(0, back.find('?')))
			if ((unsigned char)ch <= 32 || (unsigned char)ch >= 127)
				c.fail("get-uri", "a byte that cannot stand in a uri: " + Ctx::esc(back, 300));
		c.check(text.find(" " + back + " HTTP/") != std::string::npos, "get-uri", "the request line does not hold it: " + Ctx::esc(back, 300));
		http::RequestHeader r3;
		r3.query_string = "old=2";
		r3.set_uri(back);
		c.eq(r3.path, h.rq.path, "get-uri", "path after set_uri(get_uri())");
		c.eq(r3.query_string, h.rq.query_string, "get-uri", "query after set_uri(get_uri())");
		if (h.rq.path.find_first_of(std::string(" %?#\0\r\n", 7)) != std::string::npos)
			c.cls("path that needs escapes");
	} else {
		http::ResponseParser p;
		o = feed_ptr(p, in, cuts, [](http::ResponseParser &x) { return dump(x.req); });
		if (h.rs.status_text.empty())
			h.rs.status_text = http::status_to_string(h.rs.status);
		want = dump(h.rs);
	}
	if (o.kind != 1)
		c.fail("own-output-not-accepted", o.brief() + "\ntext: " + Ctx::esc(text, 2000));
	c.eq(o.dump, want, "round-trip", "fields");
	c.eq(o.consumed, text.size(), "wrong-extent", "bytes consumed");
}
