#include "../ref/http_gen.hpp"
const char *const PROP_ID   = "C05";
const char *const PROP_RULE =
    "a body is generated and framed by content-length or as chunks (sizes in any hex case, leading zeros/blanks, extensions, CRLF or LF, blanks after chunk data, trailers), optionally "
    "with one framing defect; the body parser must deliver exactly the bytes, stop exactly at the end, or refuse; non-trivial: body of at least 1 byte or a defect";
using namespace crab;
using namespace hg;

void prop_case(Gen &g, pbt::Ctx &c) {
	std::string want, text;
	bool must_fail   = false;
	const char *kind = "chunked";
	optional<uint64_t> cl;
	bool chunked = true;
	int waiting  = 0;  // 1: legal but incomplete, must wait
	if (g.chance(1, 5)) {
		chunked = false;
		kind    = "content-length";
		want    = g.blob(g.len(6000));
		text    = want;
		if (!want.empty() || g.flag())
			cl = uint64_t(want.size());
		if (g.chance(1, 4)) {  // declared more than sent (possibly absurdly more)
			waiting = 1;
			cl      = uint64_t(want.size()) + 1 + (g.flag() ? g.below(100) : g.below(uint64_t(1) << 62));
			kind    = "content-length incomplete";
		}
	} else {
		if (g.chance(1, 5))
			cl = g.below(1000);  // ignored when chunked
		size_t n      = g.below(5);
		size_t defect = g.chance(1, 3) ? 1 + g.enumerate(9) : 0;
		size_t where  = g.below(n + 1);
		char b[40];
		for (size_t i = 0; i <= n; ++i) {
			bool last       = i == n;
			bool here       = defect && i == where;
			std::string dat = last ? std::string() : g.blob(1 + g.len(700));
			snprintf(b, sizeof(b), g.flag() ? "%zx" : "%zX", dat.size());
			std::string num = (g.chance(1, 5) ? std::string(g.below(20), '0') : std::string()) + b;
			if (here) {
				if (last && (defect == 2 || defect == 3 || defect == 4))
					defect = 1;
				switch (defect) {
				case 1: num = g.of({"g", "-1", "x1", "", ";", "0x1", "+1", "1g", "1-", "a,", "\x80"}), must_fail = true, kind = "bad chunk size"; break;
				case 5: num = "1" + std::string(16 + g.below(4), g.of({"0", "f"})[0]), must_fail = true, kind = "chunk size overflow"; break;
				}
			}
			std::string ext = g.chance(1, 5) ? std::string(g.of({";a=b", " ;x", " ", ";", ";q=\"z\"", "\t;y"})) : std::string();
			if (here && defect == 6) {
				ext       = ";" + std::string(300 + g.below(3000), 'e');
				must_fail = true;
				kind      = "chunk header too long";
			}
			std::string line = sp(g, 0, true) + num + ext;
			if (here && defect == 7) {
				line += "\r" + std::string(g.of({"x", " ", "\r", "0"}));
				must_fail = true;
				kind      = "bare CR in chunk header";
			}
			text += line + (g.chance(1, 4) ? "\n" : "\r\n");
			if (last)
				break;
			text += dat;
			want += dat;
			std::string end = (g.chance(1, 6) ? sp(g, 1, true) : "") + (g.chance(1, 4) ? "\n" : "\r\n");
			if (here) {
				switch (defect) {
				case 2: end = "", text += "zz", must_fail = true, kind = "chunk longer than declared"; break;
				case 3: end = "\rx", must_fail = true, kind = "bare CR after chunk"; break;
				case 4: text.resize(text.size() - 1), end = "\r\n\r\n", must_fail = true, kind = "chunk shorter than declared"; break;
				}
			}
			if (here && defect == 4) {
				// one byte less: the CR becomes body, the next LF ends the chunk (tolerated), then CR is read as a chunk size
				text += "\r\nZ";
			} else
				text += end;
		}
		if (defect == 8) {
			text += "T: " + std::string(4200 + g.below(3000), 't') + "\r\n";
			must_fail = true;
			kind      = "trailers too long";
		} else if (defect == 9) {
			text += g.of({" x: y\r\n", "\x01y: z\r\n", "(: x\r\n", "\x80: x\r\n", "A: b\rZ\r\n"});
			must_fail = true;
			kind      = "bad trailer";
		} else
			for (size_t i = 0, k = g.below(4); i != k; ++i)
				text += token(g) + ": " + value(g) + (g.chance(1, 4) ? "\n" : "\r\n");
		text += g.chance(1, 4) ? "\n" : "\r\n";
		if (!must_fail && g.chance(1, 6)) {
			waiting = 1;
			text.resize(g.below(text.size()));
			kind = "chunked incomplete";
		}
	}
	std::string tail = waiting ? "" : g.str(g.below(8), "aG0 \r\n");
	c.cls(kind);
	if (!want.empty() || must_fail)
		c.nontrivial();
	PBT_LOG(c, kind << ": " << Ctx::esc(text, 900) << "\n");
	std::string in = text + tail;
	auto cuts      = g.chunks(in.size());
	http::BodyParser p(cl, chunked);
	Outcome o = feed_ptr(p, in, cuts, [](http::BodyParser &x) { return x.body.get_buffer(); });
	if (must_fail) {
		if (o.kind != 2)
			c.fail("bad-framing-accepted", std::string(kind) + ": " + o.brief() + "\ninput: " + Ctx::esc(in, 1500));
	} else if (waiting) {
		if (o.kind != 0)
			c.fail("incomplete-not-waiting", std::string(kind) + ": " + o.brief() + "\ninput: " + Ctx::esc(in, 1500));
	} else {
		if (o.kind != 1)
			c.fail("legal-body-not-accepted", o.brief() + "\ninput: " + Ctx::esc(in, 1500));
		c.eq(o.dump, want, "wrong-body", "body");
		c.eq(o.consumed, text.size(), "wrong-extent", "bytes consumed");
		c.eq(p.body.clear(), want, "wrong-body", "cleared body");
	}
}
