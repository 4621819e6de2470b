// C01: AsciiEscapeLayer
#include "vf.h"
#include "pre.h"
#include "/repo/src/protocol.cpp"
using namespace stored;

typedef AsciiEscapeLayer L;
static uint8_t const ESC = 0x7f;

// ---- the escape grammar (reference)
static inline bool must_escape(uint8_t c, bool all)
{
	if(c == ESC) return true;
	if(c >= 0x20) return false;
	return all || c == 0 || c == 0x11 || c == 0x13 || c == 0x1b || c == 0x0d;
}
static inline uint8_t unescape(uint8_t second) { return second == ESC ? ESC : (uint8_t)(second & 0x1f); }

static uint8_t const* g_in;
static size_t g_n;
static bool g_all;

// ---------------------------------------------------------------- encode
SPEC bool region_clean(u64 k) { return k >= g_n || !must_escape(g_in[k], g_all); }

struct Down : public ProtocolLayer {
	size_t pos, calls;
	size_t emitted;
	bool done;
	Down() : pos(), calls(), emitted(), done() {}
	virtual void encode(void const* buffer, size_t len, bool last) override
	{
		uint8_t const* b = (uint8_t const*)buffer;
		vf_assert(!done, "nothing is sent after the last chunk");
		if(len == 2 && b[0] == ESC) {
			vf_assert(pos < g_n && unescape(b[1]) == g_in[pos], "escape pair decodes to the input byte");
			vf_assert(must_escape(g_in[pos], g_all), "only bytes that need it are escaped");
			vf_assert(b[1] >= 0x20, "escaped byte has no control character");
			pos++;
		} else {
			vf_assert(len <= g_n - pos, "chunk within the message");
			if(len > 0) {
				u64 j = vf_index(len, "j");
				vf_assert(b[j] == g_in[pos + j], "chunk carries the input bytes in order");
				vf_assert(!must_escape(b[j], g_all), "no raw byte that needs an escape is sent");
			}
			pos += len;
		}
		emitted += len;
		calls++;
		if(last) done = true;
	}
	using ProtocolLayer::encode;
};
static Down* g_down;
static bool g_last;
SPEC bool inv_emitted() { return g_down->done == (g_last && g_n > 0 && g_down->pos == g_n); }
SPEC bool inv_size() { return g_down->emitted <= 2 * g_down->pos && g_down->pos <= g_n; }

VC(ascii_encode)
{
	g_all = vf_bool("all");
	g_n = vf_size("len");
	uint8_t* buf = (uint8_t*)vf_alloc(g_n, "msg");
	g_in = buf;
	bool last = g_last = vf_bool("last");
	Down down; g_down = &down;
	L l(g_all);
	l.setDown(&down);
	vf_region_(region_clean);
	vf_invariant_(inv_emitted);
	vf_invariant_(inv_size);
	l.encode(buf, g_n, last);
	vf_assert(down.pos == g_n, "every input byte is sent exactly once");
	vf_assert(down.done == last, "last is signalled exactly when requested");
	vf_assert(down.emitted <= 2 * g_n, "the message at most doubles");
	vf_cover("encode completes");
	if(down.calls > 2) vf_cover("several chunks");
}

// ---------------------------------------------------------------- decode
// token starting at i: T(i); D(i): decoded bytes before i; O(k): k-th decoded byte
#ifdef VF_PROVE
static inline u64 T(u64 i) { return vf_app1("T", i); }
static inline u64 D(u64 i) { return vf_app1("D", i); }
static inline u64 O(u64 i) { return vf_app1("O", i); }
#else
static u64 D(u64 pos)
{
	u64 i = 0, d = 0;
	while(i < pos) {
		if(i + 1 < g_n && g_in[i] == ESC) { i += 2; d++; }
		else if(i + 1 < g_n && g_in[i] == '\r') i++;
		else { i++; d++; }
	}
	return d;
}
static u64 T(u64) { return 1; }
static u64 O(u64 k)
{
	u64 i = 0, d = 0;
	while(i < g_n) {
		if(i + 1 < g_n && g_in[i] == ESC) { if(d == k) return unescape(g_in[i + 1]); i += 2; d++; }
		else if(i + 1 < g_n && g_in[i] == '\r') i++;
		else { if(d == k) return g_in[i]; i++; d++; }
	}
	return 0;
}
#endif
SPEC bool ax_T(u64 i)
{
	if(i == 0 && !(T(0) && D(0) == 0)) return false;
	if(i < g_n && T(i)) {
		if(i + 1 < g_n && g_in[i] == ESC)
			return T(i + 2) && D(i + 2) == D(i) + 1 && O(D(i)) == unescape(g_in[i + 1]);
		if(i + 1 < g_n && g_in[i] == '\r')
			return T(i + 1) && D(i + 1) == D(i);
		return T(i + 1) && D(i + 1) == D(i) + 1 && O(D(i)) == g_in[i];
	}
	return true;
}

struct Up : public ProtocolLayer {
	int calls;
	Up() : calls() {}
	virtual void decode(void* buffer, size_t len) override
	{
		calls++;
		T(0); if(g_n > 0) { T(g_n - 1); if(g_n > 1) T(g_n - 2); } // unfold the last tokens
		vf_assert(len == D(g_n), "decoded length");
		if(len > 0) {
			u64 j = vf_index(len, "j");
			vf_assert(((uint8_t*)buffer)[j] == (uint8_t)O(j), "decoded byte");
		}
	}
};

VC(ascii_decode)
{
	g_n = vf_size("len");
	uint8_t* buf = (uint8_t*)vf_alloc(g_n, "frame");
	uint8_t* orig = (uint8_t*)malloc(g_n ? g_n : 1);
	if(g_n) memcpy(orig, buf, g_n);
	g_in = orig;
	vf_specfn_("T", ax_T, 2);
	vf_specfn_("D", 0, 1);
	vf_specfn_("O", 0, 3);
	Up up;
	L l(vf_bool("all"));
	l.setUp(&up);
	l.decode(buf, g_n);
	vf_assert(up.calls == 1, "exactly one frame is passed on");
	vf_cover("decode completes");
	free(orig);
}

// lemma: a byte's encoding decodes to that byte, and encodings are self-delimiting
#ifdef VF_PROVE
PVC(ascii_lemma)
{
	uint8_t c = vf_u8("c");
	bool all = vf_bool("all");
	L l(all);
	char e = l.needEscape((char)c);
	vf_assert((e != 0) == must_escape(c, all), "needEscape decides the escape set");
	if(e) vf_assert(unescape((uint8_t)e) == c && (uint8_t)e >= 0x20 && (uint8_t)e != '\r', "escaped form decodes to the byte");
	else vf_assert(c != ESC && c != '\r', "an unescaped byte is never an escape or dropped");
	vf_cover("lemma");
}
#endif
