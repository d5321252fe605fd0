// The library's own stand-ins for standard types (this build is C++14, where crab::optional and crab::string_view are its own).
#include <crab/crab.hpp>
#include <algorithm>
#include <array>
#include "../pbt.hpp"
const char *const PROP_ID   = "C31";
const char *const PROP_RULE =
    "(a) histories of up to 40 operations (construct, copy, move, assign value or optional, emplace with 0-2 arguments, reset, read) on 3 optionals of an integer, string, vector or aggregate against (present, value) pairs; "
    "(b) histories of cuts, sub-views and comparisons on string_views over one buffer of generated bytes (zeros too) against std::string; (c) nested scopes left normally or by exception with scope_exit objects; (d) rotation, "
    "zeroing, appending and casts against their definitions; non-trivial: a present value was replaced or moved, a view was cut twice, an exception crossed two guards, or a rotation by more than the width";
using namespace crab;
using namespace pbt;

namespace {
template<class T>
struct Make;
template<>
struct Make<uint64_t> {
	static uint64_t value(Gen &g) { return g.flag() ? g.below(4) : g.u64(); }
	static void emplace(Gen &g, optional<uint64_t> &o, uint64_t &v) {
		if (g.flag())
			v = 0, o.emplace();
		else
			v = value(g), o.emplace(v);
	}
	static bool same(uint64_t a, uint64_t b) { return a == b; }
};
template<>
struct Make<std::string> {
	static std::string value(Gen &g) { return g.str(g.len(40), "ab\0c\xff"); }
	static void emplace(Gen &g, optional<std::string> &o, std::string &v) {
		switch (g.below(4)) {
		case 0: v = std::string(), o.emplace(); break;
		case 1: v = value(g), o.emplace(v); break;
		case 2: v = "literal", o.emplace("literal"); break;
		default: {
			size_t n = g.below(8);
			v        = std::string("literal", n);
			o.emplace("literal", n);
		}
		}
	}
	static bool same(const std::string &a, const std::string &b) { return a == b; }
};
using Vec = std::vector<int>;
template<>
struct Make<Vec> {
	static Vec value(Gen &g) {
		Vec v(g.len(20));
		for (auto &x : v)
			x = int(g.below(5));
		return v;
	}
	static void emplace(Gen &g, optional<Vec> &o, Vec &v) {
		switch (g.below(3)) {
		case 0: v = Vec(), o.emplace(); break;
		case 1: v = value(g), o.emplace(v); break;
		default: {
			int n = int(g.below(10));
			v     = Vec(size_t(n), 7);
			o.emplace(n, 7);
		}
		}
	}
	static bool same(const Vec &a, const Vec &b) { return a == b; }
};
using Msg = http::WebMessage;
template<>
struct Make<Msg> {
	static Msg value(Gen &g) { return Msg(g.flag() ? http::WebMessageOpcode::TEXT : http::WebMessageOpcode::BINARY, Make<std::string>::value(g)); }
	static void emplace(Gen &g, optional<Msg> &o, Msg &v) {
		v = value(g);
		o.emplace(v.opcode, v.body);
	}
	static bool same(const Msg &a, const Msg &b) { return a.opcode == b.opcode && a.body == b.body; }
};

template<class T>
void optionals(Gen &g, Ctx &c) {
	using O = optional<T>;
	struct Slot {
		std::unique_ptr<O> o;
		bool present = false, known = true;  // known: not moved from
		T value{};
	};
	Slot s[3];
	for (auto &x : s)
		x.o.reset(new O());
	bool nt = false;
	for (size_t n = g.urange(1, 40); n--;) {
		size_t i = g.below(3), j = g.below(3), op = g.below(12);
		Slot &a = s[i], &b = s[j];
		PBT_LOG(c, "op " << op << " on " << i << " with " << j << "\n");
		auto take = [&](bool move) {  // a becomes what b was
			nt |= a.present && b.present;
			if (&a != &b)
				a.value = b.value;
			a.present = b.present, a.known = b.known;
			if (move && &a != &b)
				b.known = false;
		};
		T v = Make<T>::value(g);
		switch (op) {
		case 0: a.o.reset(new O()), a.present = false, a.known = true; break;
		case 1: a.o.reset(new O(v)), a.present = a.known = true, a.value = v; break;
		case 2: {
			T w = v;
			a.o.reset(new O(std::move(w))), a.present = a.known = true, a.value = v;
			break;
		}
		case 3:
			if (i != j)
				a.o.reset(new O(static_cast<const O &>(*b.o))), take(false);
			break;
		case 4:
			if (i != j)
				a.o.reset(new O(std::move(*b.o))), take(true);
			break;
		case 5: {
			O &r = (*a.o = static_cast<const O &>(*b.o));
			c.check(&r == a.o.get(), "assign-result", "copy assignment does not return its object");
			take(false);
			break;
		}
		case 6:
			if (i != j) {
				O &r = (*a.o = std::move(*b.o));
				c.check(&r == a.o.get(), "assign-result", "move assignment does not return its object");
				take(true);
			}
			break;
		case 7: nt |= a.present, *a.o = static_cast<const T &>(v), a.present = a.known = true, a.value = v; break;
		case 8: {
			T w = v;
			nt |= a.present, *a.o = std::move(w), a.present = a.known = true, a.value = v;
			break;
		}
		case 9:
			nt |= a.present;
			Make<T>::emplace(g, *a.o, a.value);
			a.present = a.known = true;
			break;
		case 10: a.o->reset(), a.present = false, a.known = true; break;
		default:
			if (a.present) {  // written through
				switch (g.below(3)) {
				case 0: **a.o = v; break;
				case 1: a.o->value() = v; break;
				default: *a.o->operator->() = v;
				}
				a.known = true, a.value = v;
			}
		}
		for (auto &x : s) {
			const O &k = *x.o;
			c.eq(k.has_value(), x.present, "optional-present", "has_value()");
			c.eq(bool(k), x.present, "optional-present", "operator bool");
			bool threw = false, right = true;
			try {
				const T &first  = k.value();
				const T &second = x.o->value();
				right           = !x.known || (Make<T>::same(first, x.value) && Make<T>::same(second, x.value));
			} catch (const std::exception &) {
				threw = true;
			}
			c.eq(threw, !x.present, "optional-value", "value() threw");
			c.check(right, "optional-value", "value() is not what was stored");
			if (x.present && x.known)
				c.check(Make<T>::same(*k, x.value) && Make<T>::same(*x.o->operator->(), x.value) && Make<T>::same(*k.operator->(), x.value), "optional-value", "* or -> is not what was stored");
		}
	}
	c.cls("optional");
	if (nt)
		c.nontrivial();
}

void views(Gen &g, Ctx &c) {
	bool zeros         = g.flag();
	std::string buffer = zeros ? g.str(g.len(60), std::string("ab\0\xff", 4)) : g.str(g.len(60), "abc");
	string_view v;
	std::string m;
	std::vector<char> exact(buffer.begin(), buffer.end());
	size_t cuts = 0;
	auto verify = [&] {
		c.eq(v.size(), m.size(), "view-size", "size()");
		c.check(std::equal(m.begin(), m.end(), v.data()), "view-data", "bytes of the view");
		c.check(v == m && m == v && !(v != m) && !(m != v), "view-compare", "a view is not equal to its own text");
		c.eq(v.compare(m.data(), m.size()), 0, "view-compare", "compare() with its own text");
		std::string other = m;
		switch (g.below(4)) {
		case 0: other += buffer.empty() ? 'a' : buffer[0]; break;
		case 1:
			if (!other.empty())
				other.pop_back();
			break;
		case 2:
			if (!other.empty())
				other[g.below(other.size())] ^= char(1 << g.below(8));
			break;
		default:
			if (!other.empty())
				other.erase(0, 1);
		}
		bool same = other == m;
		c.eq(v == other, same, "view-compare", "view == text");
		c.eq(other == v, same, "view-compare", "text == view");
		c.eq(v != other, !same, "view-compare", "view != text");
		c.eq(other != v, !same, "view-compare", "text != view");
		c.eq(v.compare(other) == 0, same, "view-compare", "compare()");
	};
	if (g.flag()) {
		verify();
		c.cls("empty view");
	}
	for (size_t n = g.urange(1, 12); n--;) {
		switch (g.pick({3, 2, 3, 2, 2})) {
		case 0: {
			size_t at = g.below(buffer.size() + 1), len = g.below(buffer.size() - at + 1);
			v = string_view(exact.data() + at, len), m = buffer.substr(at, len);
			PBT_LOG(c, "view of " << len << " bytes at " << at << "\n");
			cuts = 0;
			break;
		}
		case 1:
			v = string_view(buffer.c_str()), m = std::string(buffer.c_str());
			PBT_LOG(c, "view of a zero terminated text of " << m.size() << "\n");
			cuts = 0;
			break;
		case 2: {
			size_t at = g.below(m.size() + (g.chance(1, 6) ? 3 : 1)), len = g.chance(1, 4) ? std::string::npos : g.below(m.size() + 3);
			PBT_LOG(c, "substr(" << at << ", " << len << ") of " << m.size() << "\n");
			bool threw = false;
			try {
				v = g.chance(1, 5) ? (len = std::string::npos, v.substr(at)) : v.substr(at, len);
			} catch (const std::out_of_range &) {
				threw = true;
			}
			c.eq(threw, at > m.size(), "view-substr", "substr() threw");
			if (!threw)
				m = m.substr(at, len);
			++cuts;
			break;
		}
		case 3: {
			size_t k = g.below(m.size() + 1);
			PBT_LOG(c, "remove_prefix(" << k << ") of " << m.size() << "\n");
			v.remove_prefix(k), m.erase(0, k);
			++cuts;
			break;
		}
		default: {
			size_t k = g.below(m.size() + 1);
			PBT_LOG(c, "remove_suffix(" << k << ") of " << m.size() << "\n");
			v.remove_suffix(k), m.erase(m.size() - k);
			++cuts;
		}
		}
		verify();
		if (cuts >= 2)
			c.nontrivial();
	}
	c.cls("string_view");
}

struct Boom {};
struct Scopes {
	Gen &g;
	Ctx &c;
	std::vector<int> order, want;
	int next       = 0;
	size_t crossed = 0;
	void level(size_t depth) {
		int a = next++;
		bool second = g.flag();
		int b       = second ? next++ : 0;
		{
			scope_exit x([this, a] { order.push_back(a); });
			std::unique_ptr<scope_exit> y;
			if (second)
				y.reset(new scope_exit([this, b] { order.push_back(b); }));
			auto before = order.size();
			if (depth) {
				try {
					level(depth - 1);
				} catch (const Boom &) {
					++crossed;
					if (g.flag()) {
						if (second)
							want.push_back(b);
						want.push_back(a);
						throw;
					}
				}
			}
			c.check(depth || order.size() == before, "scope-early", "scope_exit ran before the end of its scope");
			if (second)
				want.push_back(b);
			want.push_back(a);
			if (g.chance(1, 3))
				throw Boom();
		}
	}
};
void scopes(Gen &g, Ctx &c) {
	Scopes s{g, c, {}, {}};
	try {
		s.level(g.below(6));
	} catch (const Boom &) {
		++s.crossed;
	}
	c.check(s.order == s.want, "scope-order", "scope_exit handlers ran " + std::to_string(s.order.size()) + " times instead of " + std::to_string(s.want.size()) + " or in a wrong order");
	c.cls("scope_exit");
	if (s.crossed >= 2)
		c.nontrivial();
}

template<class T>
void rotate(Gen &g, Ctx &c) {
	const size_t bits = sizeof(T) * 8;
	T x               = T(g.u64());
	size_t by         = g.flag() ? g.below(bits) : g.below(1000);
	T want            = 0;
	for (size_t i = 0; i != bits; ++i)
		if (x >> i & 1)
			want = T(want | T(T(1) << ((i + by) % bits)));
	PBT_LOG(c, "rotate " << bits << " bits by " << by << "\n");
	c.eq(uint64_t(rol(x, by)), uint64_t(want), "rotate", "rol()");
	if (by > bits)
		c.nontrivial();
}
void bytes(Gen &g, Ctx &c) {
	switch (g.below(4)) {
	case 0: rotate<uint8_t>(g, c); break;
	case 1: rotate<uint16_t>(g, c); break;
	case 2: rotate<uint32_t>(g, c); break;
	default: rotate<uint64_t>(g, c);
	}
	std::string a = g.blob(g.len(300)), b = g.blob(g.len(300));
	bdata x(a.begin(), a.end()), y(b.begin(), b.end());
	append(x, y);
	c.check(std::string(x.begin(), x.end()) == a + b, "append", "append() does not give the concatenation");
	c.check(std::string(y.begin(), y.end()) == b, "append", "append() changed its source");
	size_t at = g.below(a.size() + 1), n = g.below(a.size() - at + 1);
	std::string z = a;
	memzero(&z[0] + at, n);
	c.check(z == a.substr(0, at) + std::string(n, '\0') + a.substr(at + n), "memzero", "memzero() cleared something else than the " + std::to_string(n) + " bytes at " + std::to_string(at));
	char *p        = &z[0];
	const char *cp = p;
	c.check(uint8_cast(p) == reinterpret_cast<uint8_t *>(p) && uint8_cast(cp) == reinterpret_cast<const uint8_t *>(cp), "cast", "uint8_cast() changes the address");
	c.cls("bytes");
}
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	switch (g.pick({1, 1, 1, 1, 4, 2, 2})) {
	case 0: optionals<uint64_t>(g, c); break;
	case 1: optionals<std::string>(g, c); break;
	case 2: optionals<Vec>(g, c); break;
	case 3: optionals<Msg>(g, c); break;
	case 4: views(g, c); break;
	case 5: scopes(g, c); break;
	default: bytes(g, c);
	}
}
