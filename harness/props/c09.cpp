#include <crab/crab.hpp>
#include <cmath>
#include "../pbt.hpp"
const char *const PROP_ID   = "C09";
const char *const PROP_RULE =
    "one of: decimal text (at, around and beyond every type's limits, decorated with signs, blanks, leading zeroes, stray bytes) to each of 8 integer types; conversion between each pair of the 8 types; "
    "float/double/long double (limits, neighbours, fractions, infinities, NaN) to each type; safe_add/safe_sub/safe_abs (all 8-bit pairs walked systematically); IntegerSaver; the result must equal 128-bit "
    "arithmetic or be reported as out of range; non-trivial: operand within 3 of a limit of source or target type, or malformed text";
using namespace crab;
using namespace pbt;
typedef __int128 W;

static std::string str(W v) {
	if (v == 0)
		return "0";
	bool neg = v < 0;
	std::string r;
	while (v != 0) {
		int d = int(v % 10);
		r.insert(r.begin(), char('0' + (d < 0 ? -d : d)));
		v /= 10;
	}
	return neg ? "-" + r : r;
}
template<class T>
static W lo() { return W(std::numeric_limits<T>::min()); }
template<class T>
static W hi() { return W(std::numeric_limits<T>::max()); }

#define TYPES(M) M(0, int8_t) M(1, uint8_t) M(2, int16_t) M(3, uint16_t) M(4, int32_t) M(5, uint32_t) M(6, int64_t) M(7, uint64_t)
static const char *const names[] = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"};
static W lo_of(int t) {
	switch (t) {
#define X(i, T) \
	case i: return lo<T>();
		TYPES(X)
#undef X
	}
	return 0;
}
static W hi_of(int t) {
	switch (t) {
#define X(i, T) \
	case i: return hi<T>();
		TYPES(X)
#undef X
	}
	return 0;
}
// result of a conversion: value or refusal
struct R {
	bool ok = false;
	W v     = 0;
};
static std::string show(const R &r) { return r.ok ? str(r.v) : "refused"; }
static void cmp(Ctx &c, const R &got, const R &want, const char *sig, const std::string &what) {
	if (got.ok != want.ok || got.v != want.v)
		c.fail(sig, what + ": got " + show(got) + " expected " + show(want));
}
template<class F>
static R call(F f) {
	R r;
	try {
		r.v  = W(f());
		r.ok = true;
	} catch (const std::out_of_range &) {
	}
	return r;
}
static bool near_edge(W v) {
	for (int t = 0; t != 8; ++t)
		if ((v - lo_of(t) <= 3 && v - lo_of(t) >= -3) || (v - hi_of(t) <= 3 && v - hi_of(t) >= -3))
			return true;
	return false;
}
static W gen_value(Gen &g) {
	switch (g.pick({3, 2, 2})) {
	case 0: {
		int t = int(g.below(8));
		return (g.flag() ? hi_of(t) : lo_of(t)) + g.range(-3, 3);
	}
	case 1: return W(g.range(-300, 300));
	default: {
		W v = W(g.u64() >> g.below(64));
		return g.flag() ? -v : v;
	}
	}
}
static W gen_in(Gen &g, int t) {
	W v = gen_value(g);
	W n = hi_of(t) - lo_of(t) + 1;
	if (v < lo_of(t) || v > hi_of(t)) {
		v = (v - lo_of(t)) % n;
		if (v < 0)
			v += n;
		v += lo_of(t);
	}
	return v;
}
// reference: blanks, optional sign ('-' only for signed), 0 or digits without leading zero, blanks
static R ref_text(const std::string &s, int t) {
	R r;
	size_t i = 0, e = s.size();
	auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
	while (i < e && sp(s[i]))
		++i;
	while (e > i && sp(s[e - 1]))
		--e;
	bool neg = false;
	if (i < e && (s[i] == '+' || s[i] == '-')) {
		neg = s[i] == '-';
		if (neg && lo_of(t) == 0)
			return r;
		++i;
	}
	if (i == e || (s[i] == '0' && e - i > 1))
		return r;
	W v = 0;
	for (; i != e; ++i) {
		if (s[i] < '0' || s[i] > '9')
			return r;
		if (v < (W(1) << 100))
			v = v * 10 + (s[i] - '0');
	}
	if (neg)
		v = -v;
	if (v < lo_of(t) || v > hi_of(t))
		return r;
	r.ok = true;
	r.v  = v;
	return r;
}
static void text_case(Gen &g, Ctx &c) {
	int t = int(g.below(8));
	std::string s;
	bool nt = true;
	switch (g.pick({6, 1, 2})) {
	case 0: {
		W v = g.chance(2, 3) ? (g.flag() ? hi_of(t) : lo_of(t)) + g.range(-3, 3) : gen_value(g);
		s   = str(v);
		if (g.chance(1, 8))
			s += g.str(g.urange(1, 30), "0123456789");
		if (g.chance(1, 3))
			s = g.str(g.urange(0, 2), " \t\n\r\v\f") + (v >= 0 ? g.of({"", "+", "-", "0", "00", "--", "+ "}) : g.of({"", " ", "-", "+"})) + s + g.str(g.urange(0, 2), " \t\n");
		if (g.chance(1, 6))
			s.insert(g.below(s.size() + 1), 1, " x.e,_\0\xb2-+0"[g.below(11)]);
		nt = near_edge(v) || g.size() == 0 || s != str(v);
		break;
	}
	case 1: s = g.of({"", " ", "+", "-", "0", "-0", "+0", "00", "-00", " 0 ", "0x1", "1e2", "1 2", "٣"}); break;
	default: s = g.str(g.len(24), "0123456789+- \t");
	}
	PBT_LOG(c, "text [" << Ctx::esc(s) << "] to " << names[t] << "\n");
	c.cls("text");
	if (nt)
		c.nontrivial();
	R want = ref_text(s, t), got, got2, got3;
	bool nul = s.find('\0') != std::string::npos;
	std::vector<char> exact(s.begin(), s.end());  // no terminator: reads past the end are caught
	const char *d = exact.empty() ? "" : exact.data();
	switch (t) {
#define X(i, T)                                                              \
	case i:                                                                  \
		got  = call([&] { return integer_cast<T>(s); });                     \
		got2 = call([&] { return integer_cast<T>(d, exact.size()); });       \
		got3 = nul ? got : call([&] { return integer_cast<T>(s.c_str()); }); \
		break;
		TYPES(X)
#undef X
	}
	std::string what = "[" + Ctx::esc(s) + "] to " + names[t];
	cmp(c, got, want, "text-to-integer", what);
	cmp(c, got2, want, "text-to-integer", what + " (pointer and size)");
	cmp(c, got3, want, "text-to-integer", what + " (C string)");
}
template<class S>
static R conv(S v, int t) {
	switch (t) {
#define X(i, T) \
	case i: return call([&] { return integer_cast<T>(v); });
		TYPES(X)
#undef X
	}
	return R{};
}
static void int_case(Gen &g, Ctx &c) {
	int t, s;
	W v;
	if (g.chance(1, 3)) {  // all values of 8-bit sources systematically
		uint64_t k = g.enumerate(2 * 8 * 256);
		s          = int(k & 1);
		t          = int((k >> 1) & 7);
		v          = lo_of(s) + W(k >> 4);
	} else {
		t = int(g.below(8));
		s = int(g.below(8));
		v = gen_in(g, s);
	}
	PBT_LOG(c, names[s] << " " << str(v) << " to " << names[t] << "\n");
	c.cls("integer");
	if (near_edge(v))
		c.nontrivial();
	R want;
	want.ok = v >= lo_of(t) && v <= hi_of(t);
	want.v  = want.ok ? v : 0;
	R got;
	switch (s) {
#define X(i, S) \
	case i: got = conv(S(v), t); break;
		TYPES(X)
#undef X
	}
	cmp(c, got, want, "integer-to-integer", std::string(names[s]) + " " + str(v) + " to " + names[t]);
}
template<class F>
static void float_one(Gen &g, Ctx &c, const char *fn) {
	int t = int(g.below(8));
	F v;
	switch (g.pick({5, 2, 2, 1})) {
	case 0: {
		v = F(g.flag() ? hi_of(t) : lo_of(t));
		switch (g.below(5)) {
		case 0: break;
		case 1: v = std::nextafter(v, F(INFINITY)); break;
		case 2: v = std::nextafter(v, F(-INFINITY)); break;
		case 3: v += F(g.range(-3, 3)); break;
		default: v += F(g.range(-30, 30)) / F(10);
		}
		break;
	}
	case 1: v = F(g.range(-3000, 3000)) / F(16); break;
	case 2: {
		v = std::ldexp(F(g.below(1 << 24)), int(g.range(-60, 60)));
		if (g.flag())
			v = -v;
		break;
	}
	default: {
		switch (g.below(4)) {
		case 0: v = F(NAN); break;
		case 1: v = F(INFINITY); break;
		case 2: v = F(-INFINITY); break;
		default: v = F(-0.0);
		}
	}
	}
	std::ostringstream o;
	o.precision(30);
	o << fn << " " << v << " to " << names[t];
	PBT_LOG(c, o.str() << "\n");
	c.cls("floating");
	R want;
	if (!std::isnan(v) && std::fabs(v) < F(1e30)) {
		W w = W(v);
		// representable: the value itself lies within the type's range; fraction is dropped
		if (F(w) == v ? (w >= lo_of(t) && w <= hi_of(t)) : (w >= lo_of(t) && w <= hi_of(t) && !(w == lo_of(t) && v < 0) && !(w == hi_of(t))))
			want.ok = true, want.v = w;
		else if (F(w) != v && ((w == lo_of(t) && v < 0) || w == hi_of(t))) {  // between the limit and the next integer: either is acceptable
			c.cls("floating between limit and next");
			return;
		}
		if (near_edge(w))
			c.nontrivial();
	} else
		c.nontrivial();
	cmp(c, conv(v, t), want, "float-to-integer", o.str());
}
template<class T>
static void arith(Ctx &c, W a, W b, const char *tn) {
	auto one = [&](const char *name, W exact, R thrown, const optional<T> &opt) {
		R want;
		want.ok = exact >= lo<T>() && exact <= hi<T>();
		want.v  = want.ok ? exact : 0;
		R o;
		o.ok = bool(opt);
		o.v  = o.ok ? W(*opt) : 0;
		std::string what = std::string(name) + "<" + tn + ">(" + str(a) + ", " + str(b) + ")";
		cmp(c, thrown, want, "safe-arithmetic", what);
		cmp(c, o, want, "safe-arithmetic", what + " optional form");
	};
	one("add", a + b, call([&] { return safe_add<T>(T(a), T(b)); }), safe_add_opt<T>(T(a), T(b)));
	one("sub", a - b, call([&] { return safe_sub<T>(T(a), T(b)); }), safe_sub_opt<T>(T(a), T(b)));
	W ab = W(safe_abs<T>(T(a)));
	if (ab != (a < 0 ? -a : a))
		c.fail("safe-abs", "safe_abs(" + str(a) + ") = " + str(ab));
}
static void arith_case(Gen &g, Ctx &c) {
	int t;
	W a, b;
	if (g.chance(2, 3)) {
		uint64_t k = g.enumerate(2 * 65536);
		t          = int(k & 1);
		a          = lo_of(t) + W((k >> 1) & 255);
		b          = lo_of(t) + W(k >> 9);
	} else {
		t = int(g.below(8));
		a = gen_in(g, t);
		b = gen_in(g, t);
		if (g.chance(1, 2)) {  // aim at the limit
			W target = (g.flag() ? hi_of(t) : lo_of(t)) + g.range(-2, 2);
			W bb     = g.flag() ? target - a : a - target;
			if (bb >= lo_of(t) && bb <= hi_of(t))
				b = bb;
		}
	}
	PBT_LOG(c, names[t] << " " << str(a) << ", " << str(b) << "\n");
	c.cls("arithmetic");
	if (near_edge(a + b) || near_edge(a - b) || near_edge(a))
		c.nontrivial();
	switch (t) {
#define X(i, T) \
	case i: arith<T>(c, a, b, names[i]); break;
		TYPES(X)
#undef X
	}
}
static void saver_case(Gen &g, Ctx &c) {
	int t = int(g.below(8));
	W v   = gen_in(g, t);
	if (g.chance(1, 3)) {
		uint64_t k = g.enumerate(2 * 65536);
		t          = 2 + int(k & 1);
		v          = lo_of(t) + W(k >> 1);
	}
	PBT_LOG(c, "IntegerSaver " << names[t] << " " << str(v) << "\n");
	c.cls("to text");
	if (near_edge(v))
		c.nontrivial();
	std::string got;
	switch (t) {
#define X(i, T)                           \
	case i: {                             \
		IntegerSaver<T> s{T(v)};          \
		got.assign(s.data(), s.size());   \
		break;                            \
	}
		TYPES(X)
#undef X
	}
	c.eq(got, str(v), "integer-to-text", "text");
	R r;
	switch (t) {
#define X(i, T) \
	case i: r = call([&] { return integer_cast<T>(got); }); break;
		TYPES(X)
#undef X
	}
	R want;
	want.ok = true;
	want.v  = v;
	cmp(c, r, want, "text-round-trip", got);
}
void prop_case(Gen &g, Ctx &c) {
	switch (g.pick({4, 3, 3, 3, 2})) {
	case 0: text_case(g, c); break;
	case 1: int_case(g, c); break;
	case 2:
		switch (g.below(3)) {
		case 0: float_one<double>(g, c, "double"); break;
		case 1: float_one<float>(g, c, "float"); break;
		default: float_one<long double>(g, c, "long double");
		}
		break;
	case 3: arith_case(g, c); break;
	default: saver_case(g, c);
	}
}
