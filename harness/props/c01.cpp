#include "../ref/http_gen.hpp"
const char *const PROP_ID   = "C01";
const char *const PROP_RULE =
    "a request head, response head, content-length/chunked body or WebSocket frame header+payload (rendered from a grammar, then optionally mutated byte-wise, or raw bytes), "
    "followed by trailing bytes, is parsed whole, in generated chunks through plain pointers, and in generated chunks through a circular buffer with wrapped storage; "
    "non-trivial: at least 2 chunks and the parser consumed at least 10 bytes";
using namespace crab;
using namespace hg;

namespace {
std::string mutate(Gen &g, std::string s, pbt::Ctx &c) {
	size_t n = g.pick({3, 2, 1, 1});
	if (n)
		c.cls("mutated");
	for (size_t i = 0; i != n && !s.empty(); ++i) {
		size_t p = g.below(s.size());
		switch (g.pick({3, 2, 2, 2, 1})) {
		case 0: s[p] = char(g.below(256)); break;
		case 1: s.erase(p, 1 + g.below(4)); break;
		case 2: s.insert(p, std::string(1 + g.below(3), "\r\n \t:;,0a%?#\0\x80"[g.below(15)])); break;
		case 3: s.insert(p, s.substr(g.below(s.size()), g.below(20))); break;
		default: s.resize(p); break;
		}
	}
	return s;
}
std::string chunked_body(Gen &g) {
	std::string t;
	size_t n = g.below(4);
	char b[32];
	for (size_t i = 0; i != n; ++i) {
		size_t len = 1 + g.len(300);
		snprintf(b, sizeof(b), g.flag() ? "%zx" : "%zX", len);
		t += sp(g, 0, true) + b + (g.chance(1, 4) ? " ;x=y" : "") + (g.chance(1, 5) ? "\n" : "\r\n") + g.blob(len) + (g.chance(1, 6) ? "  " : "") +
		     (g.chance(1, 5) ? "\n" : "\r\n");
	}
	t += "0\r\n";
	for (size_t i = 0, k = g.below(3); i != k; ++i)
		t += "tr" + std::to_string(i) + ": v" + (g.chance(1, 4) ? "\n" : "\r\n");
	return t + "\r\n";
}
struct WsBoth {  // header then body, as the connection does
	http::WebMessageHeaderParser h;
	std::unique_ptr<http::WebMessageBodyParser> b;
	bool is_good() const { return b && b->is_good(); }
	const uint8_t *parse(const uint8_t *p, const uint8_t *e) {
		if (!b) {
			p = h.parse(p, e);
			if (!h.is_good())
				return p;
			b.reset(new http::WebMessageBodyParser(h.payload_len, h.masking_key));
		}
		return b->parse(p, e);
	}
	void parse(Buffer &buf) {
		if (!b) {
			h.parse(buf);
			if (!h.is_good())
				return;
			b.reset(new http::WebMessageBodyParser(h.payload_len, h.masking_key));
		}
		b->parse(buf);
	}
};
template<class Make, class D>
void differential(Gen &g, pbt::Ctx &c, const std::string &in, Make make, D dumper) {
	auto p0        = make();
	Outcome whole  = feed_ptr(*p0, in, in.empty() ? std::vector<size_t>{} : std::vector<size_t>{in.size()}, dumper);
	auto cuts      = g.chunks(in.size());
	auto p1        = make();
	Outcome split  = feed_ptr(*p1, in, cuts, dumper);
	size_t cap     = 16 + g.below(in.size() + 40);
	size_t off     = g.below(cap);
	auto p2        = make();
	Outcome buffed = feed_buffer(*p2, in, cuts, cap, off, dumper);
	PBT_LOG(c, "input=" << Ctx::esc(in, 500) << "\nchunks=" << cuts.size() << " buffer cap=" << cap << " offset=" << off << "\nwhole: " << whole.brief() << "\n");
	c.cls(whole.kind == 0 ? "incomplete" : whole.kind == 1 ? "good" : "error");
	auto same = [&](const Outcome &o, const char *how) {
		if (o.kind != whole.kind || (o.kind == 1 && (o.consumed != whole.consumed || o.dump != whole.dump)))
			c.fail(std::string("split-dependence-") + how, "whole: " + whole.brief() + "\n" + how + ": " + o.brief());
	};
	same(split, "chunks");
	same(buffed, "buffer");
	if (whole.kind == 1 && whole.consumed < in.size())
		c.cls("trailing-bytes");
	if (whole.kind != 2 && cuts.size() > 1 && in.size() >= 10)
		c.nontrivial();
	if (whole.kind == 2 && cuts.size() > 1 && in.size() >= 30)
		c.nontrivial();
}
}  // namespace

void prop_case(Gen &g, pbt::Ctx &c) {
	Liberty lb;
	std::string tail = g.chance(1, 2) ? std::string(g.of({"GET / HTTP/1.1\r\n\r\n", "\r\n", "x", "\n", " tail"})) : std::string();
	switch (g.pick({4, 4, 3, 2, 3, 1})) {
	case 0: {
		c.cls("request");
		std::string in = mutate(g, gen_request(g, lb).text + tail, c);
		size_t limit   = g.chance(1, 8) ? g.below(in.size() + 20) : 8192;
		differential(
		    g, c, in,
		    [&] {
			    std::unique_ptr<http::RequestParser> p(new http::RequestParser);
			    p->max_total_length = limit;
			    return p;
		    },
		    [](http::RequestParser &p) { return dump(p.req); });
		break;
	}
	case 1: {
		c.cls("response");
		std::string in = mutate(g, gen_response(g, lb).text + tail, c);
		size_t limit   = g.chance(1, 8) ? g.below(in.size() + 20) : 8192;
		differential(
		    g, c, in,
		    [&] {
			    std::unique_ptr<http::ResponseParser> p(new http::ResponseParser);
			    p->max_total_length = limit;
			    return p;
		    },
		    [](http::ResponseParser &p) { return dump(p.req); });
		break;
	}
	case 2: {
		c.cls("chunked-body");
		std::string in = mutate(g, chunked_body(g) + tail, c);
		size_t l1 = g.chance(1, 6) ? g.below(20) : 256, l2 = g.chance(1, 6) ? g.below(20) : 4096;
		differential(
		    g, c, in,
		    [&] {
			    std::unique_ptr<http::BodyParser> p(new http::BodyParser(optional<uint64_t>{}, true));
			    p->max_chunk_header_total_length = l1;
			    p->max_trailers_total_length     = l2;
			    return p;
		    },
		    [](http::BodyParser &p) { return q(p.body.get_buffer()); });
		break;
	}
	case 3: {
		c.cls("length-body");
		std::string in = g.blob(g.len(3000));
		uint64_t cl    = g.chance(3, 4) ? g.below(in.size() + 1) : g.u64();
		bool none      = g.chance(1, 10);
		differential(
		    g, c, in,
		    [&] { return std::unique_ptr<http::BodyParser>(new http::BodyParser(none ? optional<uint64_t>{} : optional<uint64_t>{cl}, false)); },
		    [](http::BodyParser &p) { return q(p.body.get_buffer()); });
		break;
	}
	case 4: {
		c.cls("ws-frame");
		std::string payload = g.blob(g.pick({5, 1}) ? 126 + g.below(400) : g.below(125));
		optional<uint32_t> mk;
		if (g.chance(2, 3))
			mk = uint32_t(g.u64());
		int op = int(std::vector<int>{1, 2, 8, 9, 10}[g.below(5)]);
		http::WebMessageHeaderSaver hs(g.chance(3, 4), op, payload.size(), mk);
		std::string in = std::string(reinterpret_cast<const char *>(hs.data()), hs.size()) + payload + tail;
		in             = mutate(g, in, c);
		differential(
		    g, c, in, [&] { return std::unique_ptr<WsBoth>(new WsBoth); },
		    [](WsBoth &p) {
			    return std::to_string(p.h.fin) + "/" + std::to_string(p.h.opcode) + "/" + std::to_string(p.h.payload_len) + " " + q(p.b->body.get_buffer());
		    });
		break;
	}
	default: {
		c.cls("raw-bytes");
		std::string in = g.bytes(g.below(60));
		if (g.flag())
			differential(
			    g, c, in, [&] { return std::unique_ptr<http::RequestParser>(new http::RequestParser); }, [](http::RequestParser &p) { return dump(p.req); });
		else
			differential(
			    g, c, in, [&] { return std::unique_ptr<WsBoth>(new WsBoth); }, [](WsBoth &p) { return q(p.b->body.get_buffer()); });
	}
	}
}
