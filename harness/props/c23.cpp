#include <arpa/inet.h>
#include <netinet/in.h>
#include <crab/crab.hpp>
#include "../pbt.hpp"
const char *const PROP_ID   = "C23";
const char *const PROP_RULE =
    "legal cases: random address bytes (biased to 0/255/zero groups, v4-mapped, boundaries of the multicast and loopback ranges) are rendered by an independent formatter into one of the "
    "legal textual forms (dotted quad; full groups, leading zeros, either letter case, '::' over any legal run of zero groups, embedded IPv4 tail) with a port; parsed, printed and parsed "
    "again. malformed cases: a legal text with one defect that the harness' own grammar confirms to be illegal. non-trivial: IPv6, or a boundary octet/port, or a malformed text";
using namespace crab;
using pbt::Gen;

typedef std::vector<uint8_t> Bytes;

static std::string dotted(const uint8_t *b) {
	return std::to_string(b[0]) + "." + std::to_string(b[1]) + "." + std::to_string(b[2]) + "." + std::to_string(b[3]);
}

static std::string hex_group(Gen &g, unsigned v, int style) {  // style 0 short lower, 1 padded lower, 2 random
	static const char lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
	std::string r;
	for (int s = 12; s >= 0; s -= 4)
		r += (style == 2 && g.flag()) ? up[(v >> s) & 15] : lo[(v >> s) & 15];
	size_t lead = 0;
	while (lead < 3 && r[lead] == '0')
		++lead;
	size_t drop = style == 0 ? lead : style == 1 ? 0 : g.below(lead + 1);
	return r.substr(drop);
}

static std::string v6_text(Gen &g, const Bytes &b, pbt::Ctx &c) {
	int style     = int(g.below(3));
	bool embedded = g.chance(1, 4);
	int ng        = embedded ? 6 : 8;
	std::vector<unsigned> gr;
	for (int i = 0; i != 8; ++i)
		gr.push_back(unsigned(b[size_t(2 * i)] << 8 | b[size_t(2 * i + 1)]));
	// all runs of zero groups (any sub-run is legal for '::')
	std::vector<std::pair<int, int>> runs;
	for (int i = 0; i != ng; ++i)
		for (int j = i; j != ng && gr[size_t(j)] == 0; ++j)
			runs.push_back(std::make_pair(i, j + 1));
	std::pair<int, int> run(-1, -1);
	if (!runs.empty() && g.chance(3, 4)) {
		run = runs[g.below(runs.size())];
		c.cls("v6-compressed");
	}
	std::string r;
	bool need = false;  // separator needed before next item
	for (int i = 0; i < ng;) {
		if (i == run.first) {
			r += "::";
			need = false;
			i    = run.second;
			continue;
		}
		if (need)
			r += ":";
		r += hex_group(g, gr[size_t(i)], style);
		need = true;
		++i;
	}
	if (embedded) {
		c.cls("v6-embedded-v4");
		if (need)
			r += ":";
		r += dotted(&b[12]);
	}
	return r;
}

// independent grammar of legal texts (RFC 4291 section 2.2, strict dotted quad)
static bool ok_quad(const std::string &s) {
	int parts = 0;
	size_t i  = 0;
	for (;;) {
		size_t d = 0;
		int v    = 0;
		while (i < s.size() && s[i] >= '0' && s[i] <= '9' && d < 4) {
			v = v * 10 + (s[i] - '0');
			++i;
			++d;
		}
		if (d == 0 || d > 3 || v > 255 || (d > 1 && s[i - d] == '0'))
			return false;
		if (++parts == 4)
			return i == s.size();
		if (i >= s.size() || s[i] != '.')
			return false;
		++i;
	}
}
static int count_groups(const std::string &s, bool last_may_be_quad, bool *quad) {  // -1 illegal
	if (s.empty())
		return 0;
	int n    = 0;
	size_t i = 0;
	for (;;) {
		size_t j = s.find(':', i);
		std::string t = s.substr(i, j == std::string::npos ? std::string::npos : j - i);
		if (j == std::string::npos && last_may_be_quad && t.find('.') != std::string::npos) {
			if (!ok_quad(t))
				return -1;
			*quad = true;
			return n + 2;
		}
		if (t.empty() || t.size() > 4)
			return -1;
		for (char ch : t)
			if (!((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F')))
				return -1;
		++n;
		if (j == std::string::npos)
			return n;
		i = j + 1;
	}
}
static bool ok_v6(const std::string &s) {
	bool quad = false;
	size_t p  = s.find("::");
	if (p == std::string::npos)
		return count_groups(s, true, &quad) == 8;
	int a = count_groups(s.substr(0, p), false, &quad), b = count_groups(s.substr(p + 2), true, &quad);
	return a >= 0 && b >= 0 && a + b <= 7;
}
static bool ok_ip(const std::string &s) { return ok_quad(s) || ok_v6(s); }

static void verify(pbt::Ctx &c, const Address &a, bool v6, const Bytes &b, unsigned port, const char *what) {
	c.eq(int(a.impl_get_sockaddr()->sa_family), v6 ? AF_INET6 : AF_INET, "family", what);
	c.eq(unsigned(a.get_port()), port, "port", what);
	std::string got, want(b.begin(), b.end());
	if (v6) {
		auto s = reinterpret_cast<const sockaddr_in6 *>(a.impl_get_sockaddr());
		got.assign(reinterpret_cast<const char *>(&s->sin6_addr), 16);
		c.eq(unsigned(ntohs(s->sin6_port)), port, "port-order", what);
		c.eq(a.impl_get_sockaddr_length(), int(sizeof(sockaddr_in6)), "length", what);
		c.eq(s->sin6_scope_id, 0u, "scope", what);
		c.eq(s->sin6_flowinfo, 0u, "flow", what);
	} else {
		auto s = reinterpret_cast<const sockaddr_in *>(a.impl_get_sockaddr());
		got.assign(reinterpret_cast<const char *>(&s->sin_addr), 4);
		c.eq(unsigned(ntohs(s->sin_port)), port, "port-order", what);
		c.eq(a.impl_get_sockaddr_length(), int(sizeof(sockaddr_in)), "length", what);
		c.eq(a.get_ip4(), s->sin_addr.s_addr, "ip4", what);
	}
	c.eq(got, want, "bytes", what);
	bool multicast = v6 ? b[0] == 255 : b[0] >= 224 && b[0] <= 239;
	Bytes loop(16, 0);
	loop[15]   = 1;
	bool local = v6 ? b == loop : b[0] == 127;
	c.eq(a.is_multicast(), multicast, "is_multicast", what);
	c.eq(a.is_local(), local, "is_local", what);
}

void prop_case(Gen &g, pbt::Ctx &c) {
	bool v6 = g.flag();
	Bytes b(v6 ? 16 : 4, 0);
	switch (g.pick({3, 3, 1, 1, 1})) {
	case 0:
		for (auto &x : b)
			x = uint8_t(g.below(256));
		break;
	case 1:  // zero groups and extremes
		for (size_t i = 0; i < b.size(); i += 2) {
			unsigned v = unsigned(g.pick({4, 1, 1, 1, 1}));
			unsigned w = v == 0 ? 0 : v == 1 ? 0xffff : v == 2 ? 1 : v == 3 ? unsigned(g.below(16)) << (4 * g.below(4)) : unsigned(g.below(65536));
			b[i]       = uint8_t(w >> 8);
			b[i + 1]   = uint8_t(w);
		}
		break;
	case 2:
		b.back() = uint8_t(g.below(3));
		break;
	case 3: {
		static const uint8_t edge[] = {223, 224, 239, 240, 126, 127, 128, 254, 255, 0};
		b[0]                        = edge[g.below(10)];
		for (size_t i = 1; i != b.size(); ++i)
			b[i] = g.chance(1, 3) ? uint8_t(g.below(256)) : 0;
		break;
	}
	default:
		if (v6) {  // v4-mapped and v4-compatible
			if (g.flag())
				b[10] = b[11] = 255;
			for (size_t i = 12; i != 16; ++i)
				b[i] = uint8_t(g.below(256));
		} else
			for (auto &x : b)
				x = g.flag() ? 255 : 0;
	}
	unsigned port    = g.flag() ? unsigned(g.below(65536)) : unsigned(std::vector<unsigned>{0, 1, 80, 255, 256, 9999, 10000, 32767, 32768, 65535}[g.below(10)]);
	std::string text = v6 ? v6_text(g, b, c) : dotted(b.data());
	c.check(ok_ip(text), "harness", "harness produced an illegal text " + text);
	c.cls(v6 ? "v6" : "v4");
	if (v6 || b[0] >= 224 || b[0] == 127 || port == 0 || port > 32767)
		c.nontrivial();
	PBT_LOG(c, "text [" << text << "] port " << port << "\n");

	if (!g.chance(1, 3)) {
		Address a;
		c.check(Address::parse(a, text, uint16_t(port)), "refused", "legal address refused: " + text);
		verify(c, a, v6, b, port, text.c_str());
		std::string out = a.get_address();
		c.check(ok_ip(out) && ok_v6(out) == v6, "print", "printed address is not legal text: " + out);
		c.eq(a.to_string(), out + ":" + std::to_string(port), "to_string", "to_string");
		std::ostringstream os;
		os << a;
		c.eq(os.str(), a.to_string(), "stream", "operator<<");
		Address a2;
		c.check(Address::parse(a2, out, uint16_t(port)), "reparse", "printed address refused: " + out);
		verify(c, a2, v6, b, port, "reparsed");
		c.eq(a2.get_address(), out, "stable", "printing twice");
		Address a3("9.8.7.6", 5);  // previous contents must not leak
		c.check(Address::parse(a3, a.to_string()), "reparse-port", "printed address with port refused: " + a.to_string());
		verify(c, a3, v6, b, port, "reparsed with port");
		Address a4 = v6 ? a : Address("ffff:eeee::1", 77);
		c.check(Address::parse(a4, text + ":" + std::to_string(port)), "refused-port", "address with port refused");
		verify(c, a4, v6, b, port, "parsed with port");
		verify(c, Address(text, uint16_t(port)), v6, b, port, "constructed");
		verify(c, Address(a.to_string()), v6, b, port, "constructed with port");
		return;
	}
	// malformed
	c.nontrivial();
	std::string bad = text;
	auto at         = [&] { return g.below(bad.size() + 1); };
	switch (g.below(9)) {
	case 0: bad.insert(at(), 1, ":.gG/- %x"[g.below(9)]); break;
	case 1: bad.erase(g.below(bad.size()), 1 + g.below(3)); break;
	case 2: bad.insert(at(), g.of({"::", "..", ":0", ".0", "0", "1", "255", "fffff"})); break;
	case 3: bad[g.below(bad.size())] = char(g.below(256)); break;
	case 4: bad += std::string(1, '\0') + g.of({"", "x", ".1", ":1"}); break;
	case 5: bad += g.of({" ", "\n", "\t", "%lo", "/24", ".", ":", "]"}); break;
	case 6: bad.insert(0, g.of({" ", "\n", "[", "0", ":", ".", "0x", "+", "-"})); break;
	case 7: bad = g.of({"", ":", ".", "localhost", "1.2.3", "1", "1.2.3.4.5", "256.1.1.1", "01.2.3.4", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", ":::", "1::2::3", "::1.2.3", "::1.2.3.4:5", "1.2.3.4::", "12345::", "::g"}); break;
	default: bad = g.bytes(g.below(20));
	}
	PBT_LOG(c, "malformed candidate [" << pbt::Ctx::esc(bad) << "]\n");
	bool legal = ok_ip(bad);
	Address keep("1.2.3.4", 55), a = keep;
	bool got = false;
	try {
		got = Address::parse(a, bad, 7);
	} catch (const std::exception &ex) {
		c.fail("throws", std::string("parse(ip,port) threw ") + ex.what());
	}
	c.eq(got, legal, "accept", ("parse of " + pbt::Ctx::esc(bad)).c_str());
	if (!legal) {
		c.cls("malformed-ip");
		bool threw = false;
		try {
			Address z(bad, 7);
		} catch (const std::runtime_error &) {
			threw = true;
		}
		c.check(threw, "ctor", "constructor accepted " + pbt::Ctx::esc(bad));
	}
	// ip:port with a defect
	std::string tail, ip = text;
	bool ok = false;
	switch (g.below(6)) {
	case 0: tail = ":" + std::to_string(65536 + g.below(100000)); break;
	case 1: tail = g.of({":", ":x", ":1x", ":-1", ":1.5", ":99999999999999999999", ":0x10", ":1 2", ":65536", ":--1"}); break;
	case 2:
		if (!v6)
			tail = "";
		else
			tail = ":zz";
		break;
	case 3:
		ip   = bad;
		tail = ":" + std::to_string(port);
		ok   = legal;
		break;
	case 4: tail = ":" + std::to_string(port) + std::string(1, '\0') + g.of({"", "1", "x"}); break;
	default: tail = std::string(":") + g.of({"a", ";", "/", "\xff", "8o"}) + g.bytes(g.below(4));
		if (tail.find_last_of(':') != 0)
			tail = ":q";
	}
	std::string full = ip + tail;
	PBT_LOG(c, "with port [" << pbt::Ctx::esc(full) << "]\n");
	c.cls("malformed-port");
	a   = keep;
	got = false;
	try {
		got = Address::parse(a, full);
	} catch (const std::exception &ex) {
		c.fail("throws-port", std::string("parse(ip_port) threw ") + ex.what() + " on " + pbt::Ctx::esc(full));
	}
	c.eq(got, ok, "accept-port", ("parse of " + pbt::Ctx::esc(full)).c_str());
	if (!ok) {
		bool threw = false;
		try {
			Address z(full);
		} catch (const std::exception &) {
			threw = true;
		}
		c.check(threw, "ctor-port", "constructor accepted " + pbt::Ctx::esc(full));
	}
}
