#include "../ref/http_gen.hpp"
const char *const PROP_ID   = "C02";
const char *const PROP_RULE =
    "an abstract request or response head is generated and written in one of its legal renderings (CRLF or LF, blanks around separators, name case, folding, "
    "list headers split over commas and lines, percent escapes, fragment, leading empty lines), followed by other bytes; the parser must deliver exactly the abstract head "
    "and stop exactly at its end; non-trivial: at least one header line";
using namespace crab;
using namespace hg;

void prop_case(Gen &g, pbt::Ctx &c) {
	Liberty lb;
	lb.max_headers = 1 + g.below(g.size() / 8 + 2);
	bool rq        = g.chance(1, 2);
	Head h         = rq ? gen_request(g, lb) : gen_response(g, lb);
	c.cls(rq ? "request" : "response");
	if (!h.lines.empty())
		c.nontrivial();
	if (h.framing_headers)
		c.cls("framing-header");
	if (h.common().transfer_encoding_chunked && !h.common().transfer_encodings.empty())
		c.cls("coding-then-chunked");
	if (h.text.find("\n ") != std::string::npos)
		c.cls("folded");
	if (h.text[0] == '\r' || h.text[0] == '\n')
		c.cls("leading-empty-line");
	std::string tail = g.str(g.below(6), "aG \r\n:");
	PBT_LOG(c, Ctx::esc(h.text, 1500) << " + tail " << Ctx::esc(tail) << "\nmeaning: " << h.dump_() << "\n");
	if (h.text.size() > 8000)
		return;
	std::string in = h.text + tail;
	auto cuts      = g.chunks(in.size());
	Outcome o;
	if (rq) {
		http::RequestParser p;
		o = feed_ptr(p, in, cuts, [](http::RequestParser &x) { return dump(x.req); });
	} else {
		http::ResponseParser p;
		o = feed_ptr(p, in, cuts, [](http::ResponseParser &x) { return dump(x.req); });
	}
	if (o.kind != 1)
		c.fail("legal-head-not-accepted", o.brief() + "\ninput: " + Ctx::esc(in, 2000));
	c.eq(o.dump, h.dump_(), "wrong-meaning", "head");
	c.eq(o.consumed, h.text.size(), "wrong-extent", "bytes consumed");
	// convenience predicates agree with the parsed fields
	if (rq) {
		auto &r   = h.rq;
		bool want = r.method == "GET" && r.http_version_major == 1 && r.http_version_minor == 1 && r.connection_upgrade && r.upgrade_websocket &&
		            !r.sec_websocket_key.empty() && r.sec_websocket_version == "13" && r.keep_alive;
		c.eq(r.is_websocket_upgrade(), want, "upgrade-predicate", "is_websocket_upgrade");
	}
}
