#include "../ref/http_gen.hpp"
const char *const PROP_ID   = "C03";
const char *const PROP_RULE =
    "a legal request/response head gets exactly one defect of a known class (bad or repeated content-length, chunked not last, stray control byte, bare CR, missing colon, "
    "blank inside a name, bad version, bad percent escape, bad status code, non-ASCII name, over-long head) and is fed in generated chunks; the parser must refuse it "
    "and never report a complete head; non-trivial: every case (the defect is always present)";
using namespace crab;
using namespace hg;

void prop_case(Gen &g, pbt::Ctx &c) {
	Liberty lb;
	lb.folding      = false;
	bool rq         = g.chance(1, 2);
	Head h          = rq ? gen_request(g, lb) : gen_response(g, lb);
	size_t limit    = 8192;
	const char *cls = "";
	auto at         = [&] { return h.lines.begin() + long(g.below(h.lines.size() + 1)); };
	auto line       = [&](const std::string &n, const std::string &v) { h.lines.insert(at(), std::make_pair(n, v)); };
	auto drop       = [&](const std::string &n) {
        for (size_t i = h.lines.size(); i-- > 0;)
            if (h.lines[i].first == n)
                h.lines.erase(h.lines.begin() + long(i));
	};
	std::string ctl(1, "\x01\x0b\x1f\x7f\x00\x08"[g.below(6)]);
	Liberty exact = lb;
	exact.blanks  = false;
	exact.casing  = false;
	std::string front;  // if set, bytes before the start line
	std::string raw;  // if set, a raw header line inserted after render
	switch (g.enumerate(16)) {
	case 0:
		cls = "repeated content-length";
		drop("content-length");
		line("content-length", std::to_string(g.below(100)));
		line("content-length", std::to_string(g.below(100)));
		break;
	case 1:
		cls = "content-length not a number";
		drop("content-length");
		line("content-length", g.of({"", "-1", "+5", "+0", "-0", "007", "1 2", "0x10", "18446744073709551616", "1,2", "1e3", "ten", "99999999999999999999999", "1.0", "5;", "\xb2", "- 5", "5-", "340282366920938463463374607431768211456"}));
		break;
	case 2: {
		cls = "chunked not last";
		drop("transfer-encoding");
		if (rq && g.chance(1, 3))
			line("transfer-encoding", g.of({"gzip", "identity, gzip", "gzip,deflate", "xchunked", "chunked;q=1"}));
		else if (g.flag())
			line("transfer-encoding", "chunked, " + std::string(g.of({"gzip", "deflate", "x"})));
		else {
			size_t p = g.below(h.lines.size() + 1);
			h.lines.insert(h.lines.begin() + long(p), std::make_pair(std::string("transfer-encoding"), std::string(g.of({"gzip", "deflate", "x"}))));
			h.lines.insert(h.lines.begin() + long(p), std::make_pair(std::string("transfer-encoding"), std::string("chunked")));
		}
		break;
	}
	case 3: {
		cls = "control byte in header value";
		std::string v = value(g);
		v.insert(g.below(v.size() + 1), ctl);
		line(free_header_name(g), v);
		break;
	}
	case 4: {
		cls = "control or non-ASCII byte in header name";
		std::string n = free_header_name(g);
		n.insert(g.below(n.size() + 1), g.flag() ? ctl : std::string(1, char(128 + g.below(128))));
		line(n, value(g));
		break;
	}
	case 5: {
		cls = "separator character in header name";
		std::string n = free_header_name(g);
		n.insert(g.below(n.size() + 1), g.of({"(", ")", "<", ">", "@", ",", ";", "\\", "\"", "/", "[", "]", "?", "=", "{", "}"}));
		line(n, value(g));
		break;
	}
	case 6:
		cls = "blank inside header name";
		raw = "ab" + sp(g, 1, true) + "cd: x\r\n";
		break;
	case 7:
		cls = "no colon";
		raw = free_header_name(g) + g.of({"\r\n", "\n", " \r\n", " value\r\n"});
		break;
	case 8: {
		cls = "bare CR in header value";
		std::string v = value(g) + "\r" + g.of({"x", " ", "\t", ":", "\r"}) + value(g);
		line(free_header_name(g), v);
		break;
	}
	case 9: {
		cls           = "bad http version";
		size_t p      = h.start_line.find("HTTP/");
		std::string v = g.of({"HTTP/2.0", "HTTP/1.", "HTTP/.1", "http/1.1", "HTTP/1.1x", "HTTP 1.1", "HTTP/11.1", "HTTP/1.100", "HTP/1.1", "HTTP/a.1", "HTTP/1,1", "HTTP/9.9", "HTTP/-1.1", "HTTPS/1.1"});
		if (g.flag()) {  // any one byte wrong
			v         = "HTTP/1.1";
			size_t at = g.below(v.size());
			char ch   = g.flag() ? char(g.below(256)) : g.of({"+", "-", ".", "/", ":", "0", "2", "9", ",", "h", "\t", " "})[0];
			// another digit at 5 may be 0, at 6 it is an unusual number, at 7 another minor version
			v[at] = ch == v[at] || ((at == 5 || at == 6 || at == 7) && ch >= '0' && ch <= '9') ? '*' : ch;
		}
		if (rq)
			h.start_line = h.start_line.substr(0, h.start_line.rfind("HTTP/"));
		else
			h.start_line = h.start_line.substr(p + 8);
		h.start_line = rq ? h.start_line + v : v + " 200 OK";
		break;
	}
	case 10:
		if (rq) {
			cls          = "bad percent escape";
			h.start_line = std::string("GET /a") + g.of({"%", "%4", "%zz", "%4g", "%g4", "%%41", "%-1", "% 1"}) + g.of({"", "/b", "?q=1"}) + " HTTP/1.1";
		} else {
			cls          = "bad status code";
			std::string code = g.of({"20", "2000", "2x0", "x00", "-20", "", "20O", "2 00"});
			if (g.flag()) {
				code     = "200";
				char ch  = g.flag() ? char(g.below(256)) : g.of({"+", "-", ".", "/", ":", " ", "\t", ";", "@"})[0];
				code[g.below(3)] = ch >= '0' && ch <= '9' ? '*' : ch;
			}
			h.start_line = "HTTP/1.1 " + code + " OK";
		}
		break;
	case 11:
		if (rq) {
			cls = "bad method";
			std::string m = token(g, 6);
			m.insert(g.below(m.size() + 1), g.flag() ? ctl : g.flag() ? std::string(1, char(128 + g.below(128))) : std::string(g.of({"(", "/", ":", "\"", "{"})));
			h.start_line = m + " / HTTP/1.1";
		} else {
			cls          = "control byte in status text";
			h.start_line = "HTTP/1.1 200 a" + ctl + "b";
		}
		break;
	case 12:
		if (rq) {
			cls          = "control byte in uri";
			h.start_line = std::string("GET /") + g.of({"", "a", "?", "?q", "#", "#f"}) + ctl + " HTTP/1.1";
		} else {
			cls          = "missing space after version";
			h.start_line = std::string("HTTP/1.1") + g.of({"", "200 OK", ",200 OK"});
		}
		break;
	case 13:
		if (rq) {
			cls          = "start line incomplete";
			h.start_line = g.of({"GET /", "GET", "GET / ", "/ HTTP/1.1", "GET  ?a HTTP/1.1", "GET #a HTTP/1.1", "GET / HTTP/1.1 x"});
			if (h.start_line == "GET")
				h.start_line = "GET\r/ HTTP/1.1";
		} else {
			cls          = "bare CR in status line";
			h.start_line = std::string("HTTP/1.1 200") + g.of({"\rOK", " O\rK", " \r\r"});
		}
		break;
	case 14: {
		cls   = "over-long head";
		limit = g.flag() ? 8192 : 64 + g.below(400);
		std::string fill(limit + 1 + g.below(300), 'v');
		std::string blanks(fill.size(), " \t"[g.below(2)]);
		size_t sp1 = h.start_line.find_first_of(" \t"), sp2 = h.start_line.find_last_of(" \t");
		switch (g.pick({2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1})) {  // wherever the extra bytes are, they count
		case 0: line(free_header_name(g), fill); break;
		case 1: line("x" + fill, "v"); break;
		case 2:
			for (size_t i = 0; i <= limit / 4 + 10; ++i)  // each line is at least "x:v\n"
				h.lines.emplace_back("x", "v");
			break;
		case 3: raw = "x:" + blanks + "v\r\n"; break;
		case 4: raw = "x" + blanks + ": v\r\n"; break;
		case 5: raw = "x: v" + blanks + "\r\n"; break;
		case 6: raw = "connection: " + std::string(fill.size(), ',') + "close\r\n"; break;
		case 7:
			raw = "x: v\r\n";
			for (size_t i = 0; i <= limit / 2; ++i)
				raw += " v\n";
			break;
		case 8:
			if (rq)
				for (size_t i = 0; i <= limit; ++i)
					front += i % 2 ? "\n" : "\r\n";
			else
				h.start_line += fill;
			break;
		case 9: h.start_line.insert(rq ? g.flag() ? sp1 : sp2 : sp1, blanks); break;
		default:
			if (rq)
				h.start_line.insert(g.flag() ? 0 : sp2, fill);
			else
				h.start_line += blanks;
		}
		break;
	}
	default:
		cls = "first header line starts with a blank";
		h.lines.clear();
		raw = std::string(g.of({" ", "\t"})) + "x: y\r\n";
		break;
	}
	c.cls(cls);
	c.nontrivial();
	render(g, h, exact);
	if (!raw.empty()) {  // directly after the start line
		size_t p = h.text.find(h.start_line) + h.start_line.size();
		p        = h.text.find('\n', p) + 1;
		h.text.insert(p, raw);
	}
	h.text.insert(0, front);
	PBT_LOG(c, "defect: " << cls << "\n" << Ctx::esc(h.text, 1200) << "\n");
	auto cuts = g.chunks(h.text.size());
	Outcome o;
	if (rq) {
		http::RequestParser p;
		p.max_total_length = limit;
		o                  = feed_ptr(p, h.text, cuts, [](http::RequestParser &x) { return dump(x.req); });
	} else {
		http::ResponseParser p;
		p.max_total_length = limit;
		o                  = feed_ptr(p, h.text, cuts, [](http::ResponseParser &x) { return dump(x.req); });
	}
	if (o.kind == 1)
		c.fail("defective-head-accepted", std::string(cls) + ": " + o.brief() + "\ninput: " + Ctx::esc(h.text, 600));
	if (o.kind == 0)
		c.fail("defective-head-not-refused", std::string(cls) + ": parser still waits for more\ninput: " + Ctx::esc(h.text, 600));
}
