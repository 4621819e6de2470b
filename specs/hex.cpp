// C10: Debugger value codec
#include "vf.h"
#include <stored>
#include "vf_list.h"
#ifdef VF_PROVE
#	include "/repo/src/debugger.cpp"
#endif
using namespace stored;

static inline char nib(uint8_t x) { return (char)(x < 10 ? '0' + x : 'a' + (x - 10)); }
static inline bool isdig(char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
static inline uint8_t dig(char c) { return (uint8_t)(c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10); }

#ifdef VF_PROVE
static bool g_mayThrow;
SPEC void vf_on_throw() { vf_assert(g_mayThrow, "only refuses when the scratch pad is exhausted"); }

static Type::type const fixedTypes[] = {Type::Int8, Type::Uint8, Type::Int16, Type::Uint16, Type::Int32, Type::Uint32, Type::Int64, Type::Uint64, Type::Float, Type::Double, Type::Bool, Type::Pointer32, Type::Pointer64};

static Debugger* mk(bool reserve = true)
{
	Debugger* d = (Debugger*)malloc(sizeof(Debugger));
	new(&d->m_scratchpad) ScratchPad<>();
	if(reserve) d->m_scratchpad.reserve(512);
	return d;
}

//! text of a number: big endian, two digits per byte
static inline char digit_at(uint8_t const* le, size_t size, size_t i) { uint8_t b = le[size - 1 - i / 2]; return nib(i & 1 ? (uint8_t)(b & 0xf) : (uint8_t)(b >> 4)); }

static void fixed(Type::type t, bool shortest)
{
	vf_merge_(true);
	Debugger* d = mk();
	size_t size = Type::size(t);
	uint8_t v[8], w[8];
	for(size_t i = 0; i < size; i++) w[i] = v[i] = vf_u8("byte");
	void* data = v;
	size_t len = size;
	if(t == Type::Bool) vf_assume(v[0] <= 1);
	d->encodeHex(t, data, len, shortest);
	char const* s = (char const*)data;
	for(size_t i = 0; i < size; i++) vf_assert(v[i] == w[i], "the value itself is left alone");
	if(shortest && t == Type::Bool) {
		vf_assert(len == 1, "bool is one digit");
		vf_assert(s[0] == (v[0] ? '1' : '0'), "bool is 0 or 1");
	} else if(shortest && Type::isInt(t)) {
		vf_assert((len >= 1) & (len <= 2 * size), "number of digits");
		len = (size_t)vf_concretize(len, 17);
		for(size_t i = 0; i < 2 * size; i++) {
			if(i + len < 2 * size) vf_assert(digit_at(v, size, i) == '0', "only zeros are left out");
			else vf_assert(s[i - (2 * size - len)] == digit_at(v, size, i), "digits are the big endian value");
		}
		vf_assert(len == 1 || s[0] != '0', "no superfluous leading zeros");
	} else {
		vf_assert(len == 2 * size, "all digits");
		for(size_t i = 0; i < 2 * size; i++) vf_assert(s[i] == digit_at(v, size, i), "digits are the big endian value");
	}
	vf_assert(s[len] == 0, "terminated");
	// and back
	void const* bin = s;
	size_t binlen = len;
	bool ok = d->decodeHex(t, bin, binlen);
	vf_assert(ok, "the text is accepted");
	vf_assert(binlen == size, "size of the value");
	for(size_t i = 0; i < size; i++) vf_assert(((uint8_t const*)bin)[i] == w[i], "decodes to the same value");
	vf_cover("fixed type");
}
template <int from, int to> static void fixed_all()
{
	vf_unroll_(20);
	fixed(fixedTypes[from + vf_fork(to - from)], vf_fork(2) != 0);
}
PVC(hex_fixed8) { fixed_all<0, 2>(); }
PVC(hex_fixed16) { fixed_all<2, 4>(); }
PVC(hex_fixed32) { fixed_all<4, 6>(); }
PVC(hex_fixed64) { fixed_all<6, 8>(); }
PVC(hex_fixedx) { fixed_all<8, 13>(); }

static void decode_fixed(Type::type t)
{
	vf_merge_(true);
	Debugger* d = mk();
	size_t size = Type::size(t);
	size_t len = (size_t)vf_fork((int)size * 2 + 1);
	char* s = (char*)vf_alloc(len, "text");
	bool valid = len > 0;
	uint64_t x = 0;
	for(size_t i = 0; i < len; i++) { valid = valid & isdig(s[i]); x = (x << 4) | dig(s[i]); }
	void const* bin = s;
	size_t binlen = len;
	bool ok = d->decodeHex(t, bin, binlen);
	vf_assert(ok == valid, "accepted exactly when it is a hexadecimal number");
	if(ok) {
		vf_assert(binlen == size, "size of the value");
		if(t == Type::Bool) vf_assert(((uint8_t const*)bin)[0] == ((x & 0xff) ? 1 : 0), "false or true");
		else for(size_t i = 0; i < size; i++) vf_assert(((uint8_t const*)bin)[i] == (uint8_t)(x >> (8 * i)), "value of the number");
		vf_cover("accepted");
	} else vf_cover("refused");
}
PVC(hex_decode8) { vf_unroll_(20); decode_fixed(fixedTypes[vf_fork(2)]); }
PVC(hex_decode16) { vf_unroll_(20); decode_fixed(fixedTypes[2 + vf_fork(2)]); }
PVC(hex_decode32) { vf_unroll_(20); decode_fixed(Type::Uint32); }
PVC(hex_decode64) { vf_unroll_(20); decode_fixed(Type::Uint64); }
PVC(hex_decodex) { vf_unroll_(20); decode_fixed(fixedTypes[8 + vf_fork(4)]); }

PVC(hex_decode_long)
{
	Debugger* d = mk();
	Type::type t = fixedTypes[vf_fork(13)];
	size_t len = vf_size("len");
	vf_assume(len > 2 * Type::size(t));
	char* s = (char*)vf_alloc(len, "text");
	void const* bin = s;
	size_t binlen = len;
	vf_assert(!d->decodeHex(t, bin, binlen), "too many digits are refused");
	vf_cover("too long");
}

static uint8_t* g_b; static char* g_t; static size_t g_n; static Debugger* g_d;
SPEC bool region_hex(u64 j)
{
	char const* s = g_d->m_scratchpad.m_buffer;
	return j >= g_n || ((s[2 * j] == nib(g_b[j] >> 4)) & (s[2 * j + 1] == nib(g_b[j] & 0xf)));
}
PVC(hex_blob_encode)
{
	Debugger* d = g_d = mk(false);
	Type::type t = vf_fork(2) ? Type::Blob : Type::String;
	size_t n = g_n = vf_size("len");
	g_b = (uint8_t*)vf_alloc(n, "blob");
	g_mayThrow = n * 2 + 1 > 65535;
	void* data = g_b; size_t len = n;
	vf_merge_(true);
	vf_region_(region_hex);
	d->encodeHex(t, data, len, vf_bool("shortest"));
	char const* s = (char const*)data;
	vf_assert(len == 2 * n, "two digits per byte");
	if(n) {
		size_t i = vf_index(n, "i");
		vf_assert(s[2 * i] == nib(g_b[i] >> 4), "first digit");
		vf_assert(s[2 * i + 1] == nib(g_b[i] & 0xf), "second digit");
		vf_assert(s[len] == 0, "terminated");
		vf_cover("blob");
	}
}
SPEC bool region_bin(u64 j)
{
	if(j >= g_n) return true;
	uint8_t b = (uint8_t)g_d->m_scratchpad.m_buffer[j / 2];
	return isdig(g_t[j]) & ((j & 1 ? b & 0xf : b >> 4) == dig(g_t[j]));
}
SPEC bool region_dig(u64 j) { return j >= g_n || isdig(g_t[j]); }
PVC(hex_blob_decode)
{
	Debugger* d = g_d = mk(false);
	Type::type t = vf_fork(2) ? Type::Blob : Type::String;
	size_t n = g_n = vf_size("len");
	char* s = g_t = (char*)vf_alloc(n, "text");
	g_mayThrow = n / 2 > 65535;
	void const* bin = s; size_t len = n;
	vf_merge_(true);
	vf_region_if_(region_bin);
	bool ok = d->decodeHex(t, bin, len);
	if(n & 1) vf_assert(!ok, "odd number of digits is refused");
	if(n == 0) vf_assert(ok == (t == Type::String), "only a string can be empty");
	if(ok) vf_assert(len == n / 2, "number of bytes");
	if(ok & (n > 0)) {
		size_t i = vf_index(n, "i");
		vf_assert(len == n / 2, "one byte per two digits");
		vf_assert(isdig(s[i]), "only digits are accepted");
		uint8_t b = ((uint8_t const*)bin)[i / 2];
		vf_assert((i & 1 ? b & 0xf : b >> 4) == dig(s[i]), "bytes in order");
		vf_cover("accepted");
	}
}
//! text of digits only is accepted
PVC(hex_blob_valid)
{
	Debugger* d = g_d = mk(false);
	Type::type t = vf_fork(2) ? Type::Blob : Type::String;
	size_t n = g_n = vf_size("len");
	vf_assume(n > 0 && (n & 1) == 0);
	char* s = g_t = (char*)vf_alloc(n, "text");
	vf_assume_forall_(region_dig);
	g_mayThrow = n / 2 > 65535;
	void const* bin = s; size_t len = n;
	vf_merge_(true);
	bool ok = d->decodeHex(t, bin, len);
	vf_assert(ok, "valid text is accepted");
	vf_cover("accepted");
}
#endif
