// C15: variables, variants and functions
#include "vf.h"
#include <stored>
#ifdef VF_PROVE
#	include "/repo/src/util.cpp"
#else
#	include <map>
#	include <vector>
#	ifndef VF_BE
#		include "../src/TestStore.cpp"
#	endif
#endif
using namespace stored;

static bool const swapped = !Config::StoreInLittleEndian;

// the container: records what its hooks and callbacks are told
struct VfC {
	typedef unsigned int Key;
	static unsigned const FunctionCount = 10;
	int entryX, exitX, entryRO, exitRO, calls;
	bool changed, cset;
	Type::type type;
	void* buffer;
	size_t len;
	unsigned f;
	void* cbuffer;
	size_t clen, cret;
	u64 arg; //!< what the callback got or gives
	bool open;

	void reset() { entryX = exitX = entryRO = exitRO = calls = 0; changed = open = false; }
	void hookEntryX(Type::type t, void* b, size_t l) { vf_assert(!open, "hooks are not nested"); open = true; entryX++; type = t; buffer = b; len = l; }
	void hookExitX(Type::type t, void* b, size_t l, bool c) { vf_assert(open, "exit after entry"); open = false; exitX++; changed = c; vf_assert(t == type && b == buffer && l == len, "entry and exit are about the same object"); }
	void hookEntryRO(Type::type t, void* b, size_t l) { vf_assert(!open, "hooks are not nested"); open = true; entryRO++; type = t; buffer = b; (void)l; }
	void hookExitRO(Type::type t, void* b, size_t l) { vf_assert(open, "exit after entry"); open = false; exitRO++; vf_assert(t == type && b == buffer, "entry and exit are about the same object"); (void)l; }
	size_t callback(bool set, void* b, size_t l, unsigned int f_)
	{
		calls++; cset = set; cbuffer = b; clen = l; f = f_;
		if(!Config::UnalignedAccess && l <= 8) vf_assert(((uintptr_t)b & ((l >= 8 ? 8u : l >= 4 ? 4u : l >= 2 ? 2u : 1u) - 1u)) == 0, "callbacks get an aligned buffer");
		if(l <= 8) { if(set) { arg = 0; memcpy(&arg, b, l); } else memcpy(b, &arg, l); }
		return cret;
	}
};
static VfC g_c;

template <typename T> struct BitsOf { typedef typename std::conditional<sizeof(T) == 8, uint64_t, typename std::conditional<sizeof(T) == 4, uint32_t, typename std::conditional<sizeof(T) == 2, uint16_t, uint8_t>::type>::type>::type type; };
template <typename T> static T any_val(char const* n)
{
	typename BitsOf<T>::type b = (typename BitsOf<T>::type)vf_u(8 * (int)sizeof(T), n);
	if(std::is_same<T, bool>::value) { vf_assume(b <= 1); }
#ifndef VF_PROVE
	if(std::is_same<T, bool>::value) b &= 1;
#endif
	T v; memcpy(&v, &b, sizeof(T));
	return v;
}
template <typename T> static bool same(T const& a, T const& b)
{
	typename BitsOf<T>::type x, y; memcpy(&x, &a, sizeof(T)); memcpy(&y, &b, sizeof(T));
	return x == y;
}

// ---------------------------------------------------------------- typed variables
template <typename T, bool Hooks> static void variable_any()
{
	g_c.reset();
	// other objects before and after
	struct S { u64 before; T x; u64 after; } s;
	u64 b0 = s.before = vf_u64("before"), a0 = s.after = vf_u64("after");
	T old = any_val<T>("old"), v = any_val<T>("value");
	// what is stored now
	if(swapped) { u64 t = 0; for(size_t i = 0; i < sizeof(T); i++) ((uint8_t*)&t)[i] = ((uint8_t*)&old)[sizeof(T) - 1 - i]; memcpy(&s.x, &t, sizeof(T)); }
	else memcpy(&s.x, &old, sizeof(T));
	Variable<T, VfC, Hooks> x(g_c, s.x);
	T r0 = x.get();
	vf_assert(same(r0, old), "reading gives the stored value");
	if(Hooks) vf_assert((g_c.entryRO == 1) & (g_c.exitRO == 1) & (g_c.entryX == 0), "reading is reported as such");
	g_c.reset();
	if(vf_bool("copy")) { Variable<T, VfC, Hooks> y(x); y.set(v); }
	else x = v;
	if(Hooks) {
		vf_assert((g_c.entryX == 1) & (g_c.exitX == 1) & (g_c.entryRO == 0), "a write is reported exactly once");
		vf_assert(g_c.changed == !same(old, v), "a change is reported exactly when the value differs");
		vf_assert((g_c.type == toType<T>::type) & (g_c.buffer == &s.x) & (g_c.len == sizeof(T)), "the hooks are told which object");
	}
	T r = x.get();
	vf_assert(same(r, v), "reading gives the value that was written");
	vf_assert(((s.before == b0) & (s.after == a0)), "other objects are left alone");
	for(size_t i = 0; i < sizeof(T); i++)
		vf_assert(((uint8_t*)&s.x)[i] == ((uint8_t*)&v)[swapped ? sizeof(T) - 1 - i : i], "byte order of the store");
	vf_cover("variable");
}
template <bool Hooks> static void variable_types()
{
	switch(vf_choice(11, "type")) {
	case 0: variable_any<int8_t, Hooks>(); break;
	case 1: variable_any<uint8_t, Hooks>(); break;
	case 2: variable_any<int16_t, Hooks>(); break;
	case 3: variable_any<uint16_t, Hooks>(); break;
	case 4: variable_any<int32_t, Hooks>(); break;
	case 5: variable_any<uint32_t, Hooks>(); break;
	case 6: variable_any<int64_t, Hooks>(); break;
	case 7: variable_any<uint64_t, Hooks>(); break;
	case 8: variable_any<float, Hooks>(); break;
	case 9: variable_any<double, Hooks>(); break;
	default: variable_any<bool, Hooks>(); break;
	}
}
VC(val_variable) { variable_types<true>(); }
VC(val_variable_nohooks) { variable_types<false>(); }

// ---------------------------------------------------------------- variants of fixed types
static Type::type const fixedTypes[] = {Type::Int8, Type::Uint8, Type::Int16, Type::Uint16, Type::Int32, Type::Uint32, Type::Int64, Type::Uint64, Type::Float, Type::Double, Type::Bool, Type::Pointer32, Type::Pointer64};
VC(val_variant)
{
	g_c.reset();
	Type::type t = fixedTypes[vf_fork(13)];
	size_t size = Type::size(t);
	u64 mem[3] = {vf_u64("before"), vf_u64("old"), vf_u64("after")}, m0[3] = {mem[0], mem[1], mem[2]};
	u64 v = vf_u64("value"), v0 = v, r = vf_u64("r"), r0 = r;
	Variant<VfC> x(g_c, t, &mem[1], size);
	vf_assert(x.valid() && x.type() == t && x.size() == size && !x.isFunction(), "properties");
	uint8_t *pm = (uint8_t*)&mem[1], *p0 = (uint8_t*)&m0[1], *pv = (uint8_t*)&v, *pr = (uint8_t*)&r;
	vf_assert(x.get(pr, vf_bool("len") ? size : 0) == size, "number of bytes");
	for(size_t i = 0; i < size; i++) vf_assert(pr[i] == p0[swapped ? size - 1 - i : i], "reading gives the stored value");
	for(size_t i = size; i < 8; i++) vf_assert(pr[i] == ((uint8_t*)&r0)[i], "nothing more is written");
	vf_assert((g_c.entryRO == 1) & (g_c.exitRO == 1) & (g_c.entryX == 0), "reading is reported as such");
	g_c.reset();
	vf_assert(x.set(pv, vf_bool("len") ? size : 0) == size, "number of bytes");
	bool diff = false;
	for(size_t i = 0; i < size; i++) diff = diff | (pv[i] != p0[swapped ? size - 1 - i : i]);
	vf_assert((g_c.entryX == 1) & (g_c.exitX == 1) & (g_c.entryRO == 0), "a write is reported exactly once");
	vf_assert(g_c.changed == diff, "a change is reported exactly when the value differs");
	vf_assert((g_c.type == t) & (g_c.buffer == pm) & (g_c.len == size), "the hooks are told which object");
	vf_assert(v == v0, "the source is left alone");
	for(size_t i = 0; i < size; i++) vf_assert(pm[i] == pv[swapped ? size - 1 - i : i], "the value is stored");
	for(size_t i = size; i < 8; i++) vf_assert(pm[i] == p0[i], "other objects are left alone");
	vf_assert((mem[0] == m0[0]) & (mem[2] == m0[2]), "other objects are left alone");
	r = r0;
	x.get(pr, size);
	for(size_t i = 0; i < size; i++) vf_assert(pr[i] == pv[i], "reading gives the value that was written");
	vf_cover("variant");
}

// ---------------------------------------------------------------- blobs
static uint8_t *g_m, *g_m0, *g_v;
static size_t g_n;
SPEC bool equal_blob(u64 j) { return j >= g_n || g_v[j] == g_m0[j]; }
VC(val_blob)
{
	g_c.reset();
	size_t n = vf_size("size"), l = vf_size("len");
	vf_assume(n > 0);
	if(!n) return;
	uint8_t* m = (uint8_t*)vf_alloc(n, "old");
	uint8_t* m0 = (uint8_t*)malloc(n); memcpy(m0, m, n);
	uint8_t* v = (uint8_t*)vf_alloc(l, "value");
#ifndef VF_PROVE
	if(l && vf_bool("equal")) memcpy(v, m, std::min(n, l));
#endif
	uint8_t* r = (uint8_t*)malloc(l ? l : 1);
	uint8_t mark = vf_u8("mark");
	memset(r, mark, l ? l : 1);
	Variant<VfC> x(g_c, Type::Blob, m, n);
	size_t k = std::min(n, l);
	vf_assert(x.get(r, l) == k, "number of bytes");
	if(k) { size_t j = vf_index(k, "j"); vf_assert(r[j] == m[j], "reading gives the stored value"); }
	if(l > k) { size_t j = vf_index(l - k, "j"); vf_assert(r[k + j] == mark, "nothing more is written"); }
	g_c.reset();
#ifdef VF_PROVE
	bool equal = vf_bool("equal");
	g_v = v; g_m0 = m0; g_n = k;
	if(equal) vf_assume_forall_(equal_blob);
#endif
	vf_assert(x.set(v, l) == k, "number of bytes");
	vf_assert((g_c.entryX == 1) & (g_c.exitX == 1) & (g_c.entryRO == 0), "a write is reported exactly once");
	vf_assert((g_c.type == Type::Blob) & (g_c.buffer == m) & (g_c.len == k), "the hooks are told which bytes");
	if(k) {
		size_t j = vf_index(k, "j");
		vf_assert(m[j] == v[j], "the value is stored");
		if(!g_c.changed) vf_assert(m0[j] == v[j], "a different value is reported as a change");
#ifdef VF_PROVE
		if(equal) vf_assert(!g_c.changed, "an equal value is not reported as a change");
#endif
	} else vf_assert(!g_c.changed, "no change");
#ifndef VF_PROVE
	vf_assert(g_c.changed == (k && memcmp(v, m0, k) != 0), "a change is reported exactly when the value differs");
#endif
	if(n > k) { size_t j = vf_index(n - k, "j"); vf_assert(m[k + j] == m0[k + j], "the rest is left alone"); }
	vf_cover("blob");
	free(m0); free(r);
}

// ---------------------------------------------------------------- strings
static uint8_t const *g_a, *g_b, *g_d;
static size_t g_la, g_lb, g_k;
static inline u64 cmp8(uint8_t a, uint8_t b) { return a < b ? (u64)(int64_t)-1 : 1; }
#ifdef VF_PROVE
// 0 when the strings g_a (at most g_la) and g_b (at most g_lb) are equal from position i on
static inline u64 R(u64 i) { return vf_app1("R", i); }
SPEC bool ax_R(u64 i)
{
	if(i > g_la || i > g_lb) return true;
	if(i == g_la || i == g_lb) return R(i) == (i < g_lb && g_b[i] ? (u64)(int64_t)-1 : i < g_la && g_a[i] ? 1 : 0);
	if(g_a[i] != g_b[i]) return R(i) == cmp8(g_a[i], g_b[i]);
	if(!g_a[i]) return R(i) == 0;
	return R(i) == R(i + 1);
}
SPEC bool nonzero_a(u64 j) { return j >= g_k || g_a[j] != 0; }
#else
static u64 R(u64 i)
{
	for(;; i++) {
		if(i == g_la || i == g_lb) return i < g_lb && g_b[i] ? (u64)(int64_t)-1 : i < g_la && g_a[i] ? 1 : 0;
		if(g_a[i] != g_b[i]) return cmp8(g_a[i], g_b[i]);
		if(!g_a[i]) return 0;
	}
}
#endif
SPEC bool region_copied(u64 j) { return j >= g_n || (g_d[j] == g_a[j] && g_a[j] != 0); }

//! the length of the string at p, at most l
static size_t strlen_any(uint8_t const* p, size_t l)
{
#ifdef VF_PROVE
	g_k = (size_t)vf_u64("k");
	g_a = p;
	vf_assume(g_k <= l);
	if(g_k < l) vf_assume(p[g_k] == 0);
	vf_assume_forall_(nonzero_a);
	vf_const_(g_k);
	return g_k;
#else
	g_a = p;
	size_t k = 0;
	while(k < l && p[k]) k++;
	return k;
#endif
}

VC(val_string_set)
{
	g_c.reset();
	size_t n = vf_size("size"), l = vf_size("len");
	uint8_t* m = (uint8_t*)vf_alloc(n + 1, "old");
	uint8_t* v = (uint8_t*)vf_alloc(l, "value");
#ifndef VF_PROVE
	for(size_t i = 0; i < n; i++) if(m[i] < 20) m[i] = 0;
	if(l && vf_bool("equal")) memcpy(v, m, std::min(n, l));
#endif
	m[n] = 0;
	uint8_t* m0 = (uint8_t*)malloc(n + 1); memcpy(m0, m, n + 1);
	size_t w = std::min(l, n);
	size_t k = strlen_any(v, w);
	g_a = v; g_la = w; g_b = m0; g_lb = w + 1; g_d = m; g_n = w;
#ifdef VF_PROVE
	vf_specfn_("R", ax_R, 4);
	vf_region_(region_copied);
#endif
	u64 diff = R(0);
	Variant<VfC> x(g_c, Type::String, m, n);
	size_t res = x.set(v, l);
	vf_assert(res <= w, "number of bytes");
	vf_assert((g_c.entryX == 1) & (g_c.exitX == 1) & (g_c.entryRO == 0), "a write is reported exactly once");
	vf_assert(g_c.changed == (diff != 0), "a change is reported exactly when the value differs");
	vf_assert((g_c.type == Type::String) & (g_c.buffer == m), "the hooks are told which object");
	vf_assert(m[n] == 0, "the last byte is a terminator");
	vf_assert(k == w || v[k] == 0, "the source is left alone");
	if(g_c.changed) {
		vf_assert(res == k, "number of bytes");
		vf_assert(m[k] == 0, "the string is terminated");
		if(k) { size_t j = vf_index(k, "j"); vf_assert(m[j] == v[j], "the value is stored"); }
		if(n > k) { size_t j = vf_index(n - k, "j"); vf_assert(m[k + 1 + j] == m0[k + 1 + j], "the rest is left alone"); }
	} else {
		size_t j = vf_index(n + 1, "j"); vf_assert(m[j] == m0[j], "nothing changes");
	}
	vf_cover("string");
	free(m0);
}
VC(val_string_get)
{
	g_c.reset();
	size_t n = vf_size("size"), l = vf_size("len");
	uint8_t* m = (uint8_t*)vf_alloc(n + 1, "old");
#ifndef VF_PROVE
	for(size_t i = 0; i < n; i++) if(m[i] < 20) m[i] = 0;
#endif
	m[n] = 0;
	uint8_t* r = (uint8_t*)malloc(l ? l : 1);
	uint8_t mark = vf_u8("mark");
	memset(r, mark, l ? l : 1);
	size_t w = std::min(l, n);
	size_t k = strlen_any(m, w);
	g_a = m; g_d = r; g_n = w;
	vf_region_(region_copied);
	Variant<VfC> x(g_c, Type::String, m, n);
	size_t res = x.get(r, l);
	vf_assert(k == w || m[k] == 0, "the string itself is left alone");
	vf_assert(res == k, "length of the string");
	vf_assert((g_c.entryRO == 1) & (g_c.exitRO == 1) & (g_c.entryX == 0), "reading is reported as such");
	if(k) { size_t j = vf_index(k, "j"); vf_assert(r[j] == m[j], "reading gives the stored value"); }
	if(l > k) vf_assert(r[k] == 0, "terminated when there is space");
	if(l > k + 1) { size_t j = vf_index(l - k - 1, "j"); vf_assert(r[k + 1 + j] == mark, "nothing more is written"); }
	vf_cover("string");
	free(r);
}

// ---------------------------------------------------------------- copies between stores
static VfC g_c2;
VC(val_copy_fixed)
{
	g_c.reset(); g_c2.reset();
	Type::type t = fixedTypes[vf_fork(13)];
	size_t size = Type::size(t);
	u64 a = vf_u64("a"), b = vf_u64("b"), a0 = a, b0 = b;
	Variant<VfC> x(g_c, t, &a, size), y(g_c2, t, &b, size);
	x.copy(y);
	uint8_t *pa = (uint8_t*)&a, *pa0 = (uint8_t*)&a0, *pb = (uint8_t*)&b0;
	bool diff = false;
	for(size_t i = 0; i < size; i++) { vf_assert(pa[i] == pb[i], "the value is copied"); diff = diff | (pa0[i] != pb[i]); }
	for(size_t i = size; i < 8; i++) vf_assert(pa[i] == pa0[i], "other objects are left alone");
	vf_assert(b == b0, "the source is left alone");
	vf_assert((g_c.entryX == 1) & (g_c.exitX == 1) & (g_c.entryRO == 0) & (g_c2.entryX == 0) & (g_c2.entryRO == 1) & (g_c2.exitRO == 1), "a write is reported exactly once");
	vf_assert(g_c.changed == diff, "a change is reported exactly when the value differs");
	vf_cover("copy");
}
#ifdef VF_PROVE
// contract of the C library's strncmp()
extern "C" int vfc__strncmp(char const* a, char const* b, size_t n)
{
	vf_assert((uint8_t const*)a == g_d && (uint8_t const*)b == g_a && n == g_n, "strncmp compares the two strings");
	return R(0) != 0 ? 1 : 0;
}
#endif
VC(val_copy_string)
{
	g_c.reset(); g_c2.reset();
	size_t n = vf_size("size");
	uint8_t* m = (uint8_t*)vf_alloc(n + 1, "old");
	uint8_t* v = (uint8_t*)vf_alloc(n + 1, "value");
#ifndef VF_PROVE
	for(size_t i = 0; i < n; i++) { if(m[i] < 20) m[i] = 0; if(v[i] < 20) v[i] = 0; }
	if(vf_bool("equal")) memcpy(v, m, n);
#endif
	m[n] = 0; v[n] = 0;
	uint8_t* m0 = (uint8_t*)malloc(n + 1); memcpy(m0, m, n + 1);
	size_t k = strlen_any(v, n);
	g_a = v; g_la = n; g_b = m0; g_lb = n; g_d = m; g_n = n;
#ifdef VF_PROVE
	vf_specfn_("R", ax_R, 4);
	vf_region_(region_copied);
#endif
	u64 diff = R(0);
	Variant<VfC> x(g_c, Type::String, m, n), y(g_c2, Type::String, v, n);
	x.copy(y);
	vf_assert(v[k] == 0, "the source is left alone");
	vf_assert((g_c.entryX == 1) & (g_c.exitX == 1) & (g_c2.entryX == 0) & (g_c2.entryRO == 1) & (g_c2.exitRO == 1), "a write is reported exactly once");
	vf_assert(g_c.changed == (diff != 0), "a change is reported exactly when the value differs");
	if(g_c.changed) {
		if(k) { size_t j = vf_index(k, "j"); vf_assert(m[j] == v[j], "the value is copied"); }
		vf_assert(m[k] == 0, "the string is terminated");
	}
	vf_assert(m[n] == 0, "the last byte is a terminator");
	vf_cover("copy");
	free(m0);
}

// ---------------------------------------------------------------- functions
template <typename T> static void function_any()
{
	g_c.reset();
	unsigned f = vf_u32("f");
	vf_assume(f > 0);
	if(!f) f = 1;
	T v = any_val<T>("value"), w = any_val<T>("result");
	Function<T, VfC> x(g_c, f);
	vf_assert(x.valid() && x.id() == f && x.size() == sizeof(T), "properties");
	g_c.cret = sizeof(T);
	g_c.arg = 0; memcpy(&g_c.arg, &w, sizeof(T));
	T r = x.get();
	vf_assert(same(r, w), "reading gives what the callback gives");
	vf_assert((g_c.calls == 1) & !g_c.cset & (g_c.f == f) & (g_c.clen == sizeof(T)), "one call, to read");
	g_c.reset();
	g_c.arg = 0;
	x.set(v);
	T a; memcpy(&a, &g_c.arg, sizeof(T));
	vf_assert(same(a, v), "writing passes the value to the callback");
	vf_assert((g_c.calls == 1) & g_c.cset & (g_c.f == f) & (g_c.clen == sizeof(T)), "one call, to write");
	// buffers at any address
	alignas(8) uint8_t buf[24];
	uint8_t buf0[24];
	for(int i = 0; i < 24; i++) buf0[i] = buf[i] = (uint8_t)(0xa0 + i);
	size_t o = (size_t)vf_fork(8);
	Variant<VfC> z(g_c, (Type::type)(toType<T>::type | Type::FlagFunction), f, sizeof(T));
	bool var = vf_fork(2);
	g_c.reset(); g_c.arg = 0; memcpy(&g_c.arg, &w, sizeof(T));
	size_t n = var ? z.get(buf + o, sizeof(T)) : x.get(buf + o, sizeof(T));
	vf_assert(n == sizeof(T), "number of bytes");
	vf_assert((g_c.calls == 1) & !g_c.cset & (g_c.f == f) & (g_c.clen == sizeof(T)), "one call, to read");
	memcpy(&a, buf + o, sizeof(T));
	vf_assert(same(a, w), "reading gives what the callback gives");
	for(size_t i = 0; i < 24; i++) if(i < o || i >= o + sizeof(T)) vf_assert(buf[i] == buf0[i], "nothing more is written");
	memcpy(buf + o, &v, sizeof(T));
	for(int i = 0; i < 24; i++) buf0[i] = buf[i];
	g_c.reset(); g_c.arg = 0;
	n = var ? z.set(buf + o, sizeof(T)) : x.set(buf + o, sizeof(T));
	vf_assert(n == sizeof(T), "number of bytes");
	vf_assert((g_c.calls == 1) & g_c.cset & (g_c.f == f) & (g_c.clen == sizeof(T)), "one call, to write");
	memcpy(&a, &g_c.arg, sizeof(T));
	vf_assert(same(a, v), "writing passes the value to the callback");
	for(size_t i = 0; i < 24; i++) vf_assert(buf[i] == buf0[i], "the source is left alone");
	vf_cover("function");
}
VC(val_function)
{
	switch(vf_choice(8, "type")) {
	case 0: function_any<int8_t>(); break;
	case 1: function_any<uint16_t>(); break;
	case 2: function_any<int32_t>(); break;
	case 3: function_any<uint64_t>(); break;
	case 4: function_any<float>(); break;
	case 5: function_any<double>(); break;
	case 6: function_any<int64_t>(); break;
	default: function_any<bool>(); break;
	}
}

// ---------------------------------------------------------------- a complete store
#if !defined(VF_PROVE) && !defined(VF_BE)
#include <cstring>
#include <string>
struct ObjInfo { char const* name; Type::type type; bool isfn; size_t offset; size_t size; };
#define f 0
#define OBJ(n, t, isf, o, s) {n, Type::t, isf, o, s},
static ObjInfo const objs[] = {
#include "TestStore_objs.h"
};
#undef OBJ
#undef f
static size_t const nobjs = sizeof(objs) / sizeof(objs[0]);

class TS : public STORE_T(TS, TestStoreBase) {
	STORE_CLASS(TS, TestStoreBase)
public:
	TS() {}
	std::vector<uint8_t> fn[16];
	int nX, nXe, nRO, nROe, nChanged; bool changed; Type::type t; void* b; size_t l; unsigned lastf; bool lastset; int calls;
	void reset() { nX = nXe = nRO = nROe = nChanged = calls = 0; }
	void __hookEntryX(Type::type type, void* buffer, size_t len) { nX++; t = type; b = buffer; l = len; }
	void __hookExitX(Type::type type, void* buffer, size_t len, bool c) { nXe++; changed = c; vf_assert(t == type && b == buffer && l == len, "entry and exit are about the same object"); if(c) hookChanged(type, buffer, len); }
	void __hookEntryRO(Type::type type, void* buffer, size_t) { nRO++; t = type; b = buffer; }
	void __hookExitRO(Type::type type, void* buffer, size_t) { nROe++; vf_assert(t == type && b == buffer, "entry and exit are about the same object"); }
	void __hookChanged(Type::type, void*, size_t) { nChanged++; }
	size_t fnx(unsigned id, bool set, void* v, size_t len, size_t size)
	{
		calls++; lastf = id; lastset = set;
		fn[id].resize(size);
		if(len > size) len = size;
		if(set) memcpy(fn[id].data(), v, len); else memcpy(v, fn[id].data(), len);
		return len;
	}
	void __f_read__write(bool set, double& v) { fnx(1, set, &v, 8, 8); }
	void __f_read_only(bool set, uint16_t& v) { fnx(2, set, &v, 2, 2); }
	size_t __f_write_only(bool set, char* v, size_t len) { return fnx(3, set, v, len, 4); }
	void __array_f_int_0(bool set, int32_t& v) { fnx(4, set, &v, 4, 4); }
	void __array_f_int_1(bool set, int32_t& v) { fnx(5, set, &v, 4, 4); }
	void __array_f_int_2(bool set, int32_t& v) { fnx(6, set, &v, 4, 4); }
	void __array_f_int_3(bool set, int32_t& v) { fnx(7, set, &v, 4, 4); }
	size_t __array_f_blob_0(bool set, void* v, size_t len) { return fnx(8, set, v, len, 2); }
	size_t __array_f_blob_1(bool set, void* v, size_t len) { return fnx(9, set, v, len, 2); }
};
typedef std::vector<uint8_t> Bytes;
static Bytes read_obj(TS& s, Variant<TS> v, ObjInfo const& o)
{
	Bytes r(o.size + 1, 0xee);
	s.reset();
	size_t n = v.get(r.data(), o.size);
	vf_assert(r[o.size] == 0xee, "nothing more is written");
	if(o.type == Type::String && !o.isfn) { vf_assert(n == strnlen((char*)r.data(), o.size), "length of the string"); }
	else vf_assert(n == o.size, "number of bytes");
	r.resize(n);
	if(o.isfn) vf_assert(s.calls == 1 && !s.lastset && s.lastf == o.offset && s.nRO == 0, "the function of the object is called");
	else vf_assert(s.calls == 0 && s.nRO == 1 && s.nROe == 1 && s.nX == 0, "reading is reported as such");
	return r;
}
VC(val_store)
{
	TS* sp = new TS(); TS& s = *sp;
	std::vector<Variant<TS> > v;
	for(size_t i = 0; i < nobjs; i++) {
		Variant<TS> x = s.find(objs[i].name);
		vf_note(objs[i].name);
		vf_assert(x.valid() && (x.type() & ~(int)Type::FlagFunction) == (int)objs[i].type && x.isFunction() == objs[i].isfn && x.size() == objs[i].size, "objects are found by name");
		for(size_t k = 0; k < i; k++) vf_assert(!(v[k] == x), "different names are different objects");
		v.push_back(x);
	}
	std::vector<Bytes> m(nobjs);
	for(size_t i = 0; i < nobjs; i++) if(objs[i].isfn) s.fn[objs[i].offset].assign(objs[i].size, 0);
	for(size_t i = 0; i < nobjs; i++) m[i] = read_obj(s, v[i], objs[i]);
	int ops = 0;
	while(ops++ < 12 && vf_more("op")) {
		size_t i = vf_u8("object") % nobjs;
		ObjInfo const& o = objs[i];
		vf_note(o.name);
		Bytes d(o.size + 1);
		for(size_t k = 0; k <= o.size; k++) d[k] = vf_u8("byte");
		if(o.type == Type::Bool) d[0] &= 1;
		size_t len = o.size;
		if(!Type::isFixed(o.type)) len = vf_u8("len") % (o.size + 2);
		Bytes e = m[i];
		size_t w = std::min(len, o.size);
		if(vf_bool("equal")) for(size_t k = 0; k < e.size() && k <= o.size; k++) d[k] = e[k];
		if(o.isfn) { for(size_t k = 0; k < w; k++) e[k] = d[k]; }
		else if(o.type == Type::String) { e.assign(d.begin(), d.begin() + (long)strnlen((char*)d.data(), w)); }
		else for(size_t k = 0; k < w; k++) e[k] = d[k];
		bool change = e != m[i];
		s.reset();
		Variant<TS> x = v[i];
		int how = vf_u8("how") % 2;
		if(how == 0) x.set(d.data(), len);
		else { DebugVariant y(x); y.set(d.data(), len); }
		if(o.isfn) vf_assert(s.calls == 1 && s.lastset && s.lastf == o.offset && s.nX == 0, "the function of the object is called");
		else {
			vf_assert(s.calls == 0 && s.nX == 1 && s.nXe == 1 && s.nRO == 0, "a write is reported exactly once");
			vf_assert(s.changed == change && s.nChanged == (int)change, "a change is reported exactly when the value differs");
			vf_assert(s.t == o.type && s.bufferToKey(s.b) == o.offset, "the hooks are told which object");
		}
		m[i] = e;
		for(size_t k = 0; k < nobjs; k++) { Bytes r = read_obj(s, v[k], objs[k]); vf_note(objs[k].name); vf_assert(r == m[k], k == i ? "reading gives the value that was written" : "other objects are left alone"); }
		// typed access
		s.reset();
		uint8_t y = vf_u8("y");
		switch(vf_u8("typed") % 4) {
		case 0: s.default_uint8 = y; vf_assert(s.default_uint8.get() == y && m.size(), "typed access"); break;
		case 1: s.default_int16 = (int16_t)((int16_t)y * 200); vf_assert(s.default_int16.get() == (int16_t)((int16_t)y * 200), "typed access"); break;
		case 2: {
			int32_t q = (int32_t)y * -77777, r = 0;
			vf_assert(s.array_f_int_a(y & 3u).set(&q, 4) == 4 && s.array_f_int_a(y & 3u).get(&r, 4) == 4, "typed access");
			vf_assert(q == r && s.array_f_int_a(y & 3u).isFunction() && s.lastf == 4u + (y & 3u), "typed access");
			break;
		}
		default: s.default_double = (double)y / 3; vf_assert(s.default_double.get() == (double)y / 3, "typed access"); break;
		}
		static char const* const typed[] = {"/default uint8", "/default int16", nullptr, "/default double"};
		for(size_t k = 0; k < nobjs; k++) {
			bool t = std::string(objs[k].name).compare(0, 13, "/array f int[") == 0;
			for(int q = 0; q < 4; q++) if(typed[q] && !strcmp(typed[q], objs[k].name)) t = true;
			Bytes r = read_obj(s, v[k], objs[k]);
			if(!t) { vf_note(objs[k].name); vf_assert(r == m[k], "other objects are left alone"); }
			m[k] = r;
		}
	}
	vf_cover("store");
	delete sp;
}
#endif
