// C16: conversions and string helpers
#include "vf.h"
#include "pre.h"
#include "/repo/src/util.cpp"
#include <cmath>
using namespace stored;

// ---------------------------------------------------------------- saturated_cast
template <typename T> static inline T any_int(char const* n) { return (T)vf_u(8 * (int)sizeof(T), n); }

// reference comparison of integers of any signedness
template <typename A, typename B> static inline bool lt(A a, B b)
{
	bool an = a < (A)0, bn = b < (B)0;
	if(an != bn) return an;
	if(an) return (int64_t)a < (int64_t)b;
	return (uint64_t)a < (uint64_t)b;
}
template <typename R, typename T> static void sat_int()
{
	T x = any_int<T>("x");
	R r = saturated_cast<R>(x);
	R lo = std::numeric_limits<R>::min(), hi = std::numeric_limits<R>::max();
	if(lt(x, lo)) vf_assert(r == lo, "below the range: the minimum");
	else if(lt(hi, x)) vf_assert(r == hi, "above the range: the maximum");
	else vf_assert(!lt((R)x, x) && !lt(x, (R)x) && r == (R)x, "within the range: the value itself");
}
template <typename T> static void sat_from()
{
	switch(vf_choice(8, "R")) {
	case 0: sat_int<int8_t, T>(); break;
	case 1: sat_int<uint8_t, T>(); break;
	case 2: sat_int<int16_t, T>(); break;
	case 3: sat_int<uint16_t, T>(); break;
	case 4: sat_int<int32_t, T>(); break;
	case 5: sat_int<uint32_t, T>(); break;
	case 6: sat_int<int64_t, T>(); break;
	default: sat_int<uint64_t, T>(); break;
	}
	vf_cover("cast");
}
VC(sat_i8) { sat_from<int8_t>(); }
VC(sat_u8) { sat_from<uint8_t>(); }
VC(sat_i16) { sat_from<int16_t>(); }
VC(sat_u16) { sat_from<uint16_t>(); }
VC(sat_i32) { sat_from<int32_t>(); }
VC(sat_u32) { sat_from<uint32_t>(); }
VC(sat_i64) { sat_from<int64_t>(); }
VC(sat_u64) { sat_from<uint64_t>(); }

template <typename F> struct Bits { typedef uint32_t type; };
template <> struct Bits<double> { typedef uint64_t type; };
static inline float rnd(float v) { return roundf(v); }
static inline double rnd(double v) { return round(v); }
template <typename F> static F any_float()
{
	typename Bits<F>::type b = (typename Bits<F>::type)vf_u(8 * (int)sizeof(F), "bits");
	F f; memcpy(&f, &b, sizeof(f));
#ifndef VF_PROVE
	// near the interesting values
	switch(vf_choice(4, "mode")) {
	case 0: f = (F)(int16_t)b / (F)4; break;
	case 1: f = (F)(int64_t)b; break;
	case 2: { F p = (F)std::ldexp(1.0, (int)((b >> 3) % 68)); f = (b & 1 ? p : -p) + (F)((int)(b >> 12 & 7) - 4) / (F)2; if(b & 2) f = std::nextafter(f, (F)0); } break;
	default:;
	}
#endif
	return f;
}
template <typename R, typename F> static void sat_float()
{
	F x = any_float<F>();
	vf_assume(x == x); // not a number has no nearest integer
	R r = saturated_cast<R>(x);
	F y = rnd(x);
	bool sg = std::numeric_limits<R>::is_signed;
	F top = sg ? (F)2 * (F)((R)1 << (8 * sizeof(R) - 2)) : (F)2 * (F)((R)1 << (8 * sizeof(R) - 1)); // max() + 1, exactly
	F bot = sg ? -top : (F)0;
	if(y >= top) vf_assert(r == std::numeric_limits<R>::max(), "above the range: the maximum");
	else if(y < bot) vf_assert(r == std::numeric_limits<R>::min(), "below the range: the minimum");
	else vf_assert((R)y == r, "within the range: rounded to the nearest integer");
	vf_cover("cast");
}
template <typename F> static void sat_fromf()
{
	switch(vf_choice(8, "R")) {
	case 0: sat_float<int8_t, F>(); break;
	case 1: sat_float<uint8_t, F>(); break;
	case 2: sat_float<int16_t, F>(); break;
	case 3: sat_float<uint16_t, F>(); break;
	case 4: sat_float<int32_t, F>(); break;
	case 5: sat_float<uint32_t, F>(); break;
	case 6: sat_float<int64_t, F>(); break;
	default: sat_float<uint64_t, F>(); break;
	}
}
VC(sat_float) { sat_fromf<float>(); }
VC(sat_double) { sat_fromf<double>(); }
VC(sat_bool)
{
	bool b = vf_bool("b");
	vf_assert(saturated_cast<int8_t>(b) == (int8_t)b && saturated_cast<uint64_t>(b) == (uint64_t)b, "from bool");
	int64_t x = (int64_t)vf_u64("x");
	vf_assert(saturated_cast<bool>(x) == (x != 0), "to bool");
	vf_assert(saturated_cast<bool>((uint8_t)x) == ((uint8_t)x != 0), "to bool");
	vf_cover("cast");
}

// ---------------------------------------------------------------- byte order
template <typename T> static void endian_any()
{
	T x = any_int<T>("x");
	T y = swap_endian<T>(x);
	size_t i = vf_index(sizeof(T), "i");
	vf_assert(((uint8_t*)&x)[i] == ((uint8_t*)&y)[sizeof(T) - 1 - i], "swapping reverses the bytes");
	vf_assert(swap_endian<T>(y) == x, "swapping twice gives the value back");
	vf_assert(endian_h2b<T>(x) == y && endian_b2h<T>(x) == y && endian_h2n<T>(x) == y && endian_n2h<T>(x) == y, "network order is big endian");
	vf_assert(endian_h2l<T>(x) == x && endian_l2h<T>(x) == x, "host order is little endian");
	vf_assert(endian_s2h<T>(endian_h2s<T>(x)) == x, "store order round-trips");
	uint8_t buf[sizeof(T) + 1] = {}; memcpy(buf + 1, &x, sizeof(T));
	vf_assert(endian_b2h<T>(buf + 1) == y && endian_n2h<T>(buf + 1) == y && endian_l2h<T>(buf + 1) == x && endian_h2s<T>(endian_s2h<T>(buf + 1)) == x, "unaligned load");
}
VC(endian)
{
	switch(vf_choice(4, "T")) {
	case 0: endian_any<uint8_t>(); break;
	case 1: endian_any<uint16_t>(); break;
	case 2: endian_any<uint32_t>(); break;
	default: endian_any<uint64_t>(); break;
	}
	vf_cover("endian");
}

static uint8_t const *g_a, *g_b, *g_o;
static size_t g_n, g_la, g_lb;
SPEC bool region_rev(u64 j) { return j >= g_n || g_b[j] == g_o[g_n - 1 - j]; }
SPEC bool region_same(u64 j) { return j >= g_n || g_b[j] == g_o[j]; }

VC(swap_endian_buffer)
{
	size_t n = g_n = vf_size("len");
	uint8_t* b = (uint8_t*)vf_alloc(n, "buf");
	uint8_t* o = (uint8_t*)malloc(n ? n : 1);
	if(n) memcpy(o, b, n);
	g_o = o; g_b = b;
	vf_region_(region_rev); vf_region_(region_same);
	if(n) swap_endian(b, n);
	if(n) {
		size_t j = vf_index(n, "j");
		vf_assert(b[j] == o[n - 1 - j], "every byte is at its mirrored position");
	}
	vf_cover("swap");
	free(o);
}
VC(memcpy_swap)
{
	size_t n = g_n = vf_size("len");
	uint8_t* b = (uint8_t*)vf_alloc(n, "src");
	uint8_t* d = (uint8_t*)malloc(n ? n : 1);
	g_o = b; g_b = d;
	vf_region_(region_rev);
	memcpy_swap(d, b, n);
	if(n) {
		size_t j = vf_index(n, "j");
		vf_assert(d[j] == b[n - 1 - j], "every byte is at its mirrored position");
	}
	vf_cover("memcpy_swap");
	free(d);
}

// backward spec functions: the result of comparing from position i on
static inline u64 cmp8(uint8_t a, uint8_t b) { return a < b ? (u64)(int64_t)-1 : 1; }
#ifdef VF_PROVE
static inline u64 R(u64 i) { return vf_app1("R", i); }
static inline u64 M(u64 i) { return vf_app1("M", i); }
SPEC bool ax_R(u64 i)
{
	if(i > g_la || i > g_lb) return true;
	if(i == g_la || i == g_lb) return R(i) == (i < g_lb && g_b[i] ? (u64)(int64_t)-1 : i < g_la && g_a[i] ? 1 : 0);
	if(g_a[i] != g_b[i]) return R(i) == cmp8(g_a[i], g_b[i]);
	if(!g_a[i]) return R(i) == 0;
	return R(i) == R(i + 1);
}
SPEC bool ax_M(u64 i)
{
	if(i >= g_n) return i > g_n || M(i) == 0;
	if(g_a[i] != g_b[g_n - 1 - i]) return M(i) == cmp8(g_a[i], g_b[g_n - 1 - i]);
	return M(i) == M(i + 1);
}
#else
static u64 R(u64 i)
{
	for(;; i++) {
		if(i == g_la || i == g_lb) return i < g_lb && g_b[i] ? (u64)(int64_t)-1 : i < g_la && g_a[i] ? 1 : 0;
		if(g_a[i] != g_b[i]) return cmp8(g_a[i], g_b[i]);
		if(!g_a[i]) return 0;
	}
}
static u64 M(u64 i) { for(; i < g_n; i++) if(g_a[i] != g_b[g_n - 1 - i]) return cmp8(g_a[i], g_b[g_n - 1 - i]); return 0; }
#endif

VC(memcmp_swap)
{
	size_t n = g_n = vf_size("len");
	g_a = (uint8_t*)vf_alloc(n, "a");
#ifdef VF_PROVE
	g_b = (uint8_t*)vf_alloc(n, "b");
	vf_specfn_("M", ax_M, 4);
#else
	{ uint8_t* b = (uint8_t*)vf_alloc(n, "b"); if(vf_bool("mostly equal")) { for(size_t i = 0; i < n; i++) b[i] = g_a[n - 1 - i]; if(n && vf_bool("one off")) b[vf_index(n, "k")] ^= vf_u8("x"); } g_b = b; }
#endif
	u64 m = M(0);
	vf_assert((u64)(int64_t)memcmp_swap(g_a, g_b, n) == m, "compares byte i with byte len-1-i");
	vf_cover("memcmp_swap");
}
VC(strncmp)
{
	g_la = vf_size("len1"); size_t nb = vf_size("len2");
	g_a = (uint8_t*)vf_alloc(g_la, "a");
#ifdef VF_PROVE
	g_b = (uint8_t*)vf_alloc(nb, "b");
	vf_specfn_("R", ax_R, 4);
#else
	{ uint8_t* b = (uint8_t*)vf_alloc(nb, "b"); if(vf_bool("mostly equal")) { if(nb) memcpy(b, g_a, g_la < nb ? g_la : nb); if(nb && vf_bool("one off")) b[vf_index(nb, "k")] ^= vf_u8("x"); } g_b = b; }
#endif
	g_lb = nb;
	size_t l2 = nb;
	bool term = vf_bool("zero-terminated");
	if(term) { vf_assume(nb > 0 && g_b[nb - 1] == 0); l2 = std::numeric_limits<size_t>::max(); vf_assume(g_la < nb || 1); }
	u64 r0 = R(0);
#ifdef VF_PROVE
	if(term) { R(nb - 1); R(nb); vf_const_(nb - 1); }
#endif
	int r = stored::strncmp((char const*)g_a, g_la, (char const*)g_b, l2);
	vf_assert((u64)(int64_t)r == r0, "compares like strncmp");
	vf_cover("strncmp");
}

SPEC bool region_copied(u64 j) { return j >= g_n || (g_b[j] == g_a[j] && g_a[j] != 0); }
VC(strncpy)
{
	size_t n = vf_size("len");
	size_t ns = vf_size("srclen");
	uint8_t* src = (uint8_t*)vf_alloc(ns, "src"); g_a = src;
	// the source is terminated or at least as long as the limit
	bool term = ns < n || vf_bool("terminated");
	if(term) { vf_assume(ns > 0); src[ns - 1] = 0; }
	uint8_t* dst = (uint8_t*)malloc(n ? n : 1);
	uint8_t mark = vf_u8("mark");
	memset(dst, mark, n ? n : 1);
	g_b = dst; g_n = n;
	vf_region_(region_copied);
	if(term) vf_const_(ns - 1);
	size_t r = stored::strncpy((char*)dst, (char const*)src, n);
	vf_assert(r <= n, "never more than the limit");
	if(r < n) vf_assert(src[r] == 0, "stops at the terminator");
	if(r > 0) { size_t j = vf_index(r, "j"); vf_assert(dst[j] == src[j] && src[j] != 0, "copies the string"); }
	if(r < n) { size_t j = vf_index(n - r, "k"); vf_assert(dst[r + j] == mark, "no padding"); }
	vf_cover("strncpy");
	free(dst);
}

// ---------------------------------------------------------------- string_literal
static inline char hex1(uint8_t v) { return (char)(v < 10 ? '0' + v : 'a' + v - 10); }
static inline size_t esc(uint8_t c, uint8_t* o)
{
	o[0] = '\\'; o[1] = 0; o[2] = 0; o[3] = 0;
	switch(c) {
	case 0: o[1] = '0'; return 2;
	case '\r': o[1] = 'r'; return 2;
	case '\n': o[1] = 'n'; return 2;
	case '\t': o[1] = 't'; return 2;
	case '\\': o[1] = '\\'; return 2;
	default:;
	}
	if(c < 0x20 || c >= 0x7f) { o[1] = 'x'; o[2] = (uint8_t)hex1(c >> 4); o[3] = (uint8_t)hex1(c & 15); return 4; }
	o[0] = c; return 1;
}
static char const* g_prefix;
static size_t g_np;
#ifdef VF_PROVE
static inline u64 L(u64 i) { return vf_app1("L", i); }
static inline u64 O(u64 i) { return vf_app1("O", i); }
SPEC bool ax_L(u64 i)
{
	if(i == 0) { if(L(0) != g_np) return false; if(g_np && !(O(0) == 'p' && O(1) == '>' && O(2) == ' ')) return false; }
	if(i >= g_n) return true;
	uint8_t e[4]; size_t n = esc(g_a[i], e);
	u64 l = L(i);
	if(L(i + 1) != l + n) return false;
	if(O(l) != e[0]) return false;
	if(n >= 2 && O(l + 1) != e[1]) return false;
	if(n >= 4 && !(O(l + 2) == e[2] && O(l + 3) == e[3])) return false;
	return true;
}
#endif
VC(string_literal)
{
	g_n = vf_size("len");
	g_a = (uint8_t*)vf_alloc(g_n, "buf");
	bool pre = vf_bool("prefix");
	g_prefix = pre ? "p> " : nullptr; g_np = pre ? 3 : 0;
#ifdef VF_PROVE
	vf_specfn_("L", ax_L, 1);
	vf_specfn_("O", 0, 3);
	L(0);
	String::type s = string_literal(g_a, g_n, g_prefix);
	if(g_n) L(g_n - 1);
	vf_assert(s.size() == L(g_n), "length");
	if(s.size()) { u64 j = vf_index(s.size(), "j"); vf_assert((uint8_t)s[j] == (uint8_t)O(j), "every byte in turn"); }
#else
	String::type s = string_literal(g_a, g_n, g_prefix);
	std::string r(pre ? "p> " : "");
	for(size_t i = 0; i < g_n; i++) { uint8_t e[4]; size_t n = esc(g_a[i], e); r.append((char*)e, n); }
	vf_assert(std::string(s.c_str(), s.size()) == r, "every byte in turn");
#endif
	vf_cover("literal");
}
