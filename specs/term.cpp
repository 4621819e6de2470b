// C02: TerminalLayer
#include "vf.h"
#include <stored>
#ifdef VF_PROVE
#	include "/repo/src/protocol.cpp"
#else
#	include <string>
#	include <vector>
#endif
using namespace stored;
static uint8_t const ESC = 0x1b;
typedef TerminalLayer L;

// ---------------------------------------------------------------- decode
// The stream g_s consists of an ESC that was held back (when g_pend), and the bytes of this call.
// It is split, in order, in plain bytes, start markers, frame content and end markers:
// everything before g_pos is accounted for.
static uint8_t const* g_s;
static size_t g_n, g_pos;
static bool g_in;           // within a frame
static size_t g_len;        // bytes of its content so far
static uint8_t g_prev;      // last one of these
static uint8_t g_data;      // stands for the buffer of the frame
static size_t g_frames;

static void start_marker()
{
	if(g_in) return;
	vf_assert(g_pos + 1 < g_n && g_s[g_pos] == ESC && g_s[g_pos + 1] == '_', "a frame starts at a start marker");
	vf_assert(g_len == 0, "nothing is left of an earlier frame");
	g_pos += 2;
	g_in = true;
}
static void content(uint8_t c)
{
	start_marker();
	vf_assert(g_pos < g_n && c == g_s[g_pos], "the frame has the bytes of the stream, in order");
	vf_assert(!(g_len && g_prev == ESC && c == '\\'), "a frame ends at its end marker");
	g_prev = c;
	g_pos++;
	g_len++;
}
static void deliver(size_t len)
{
	start_marker();
	vf_assert(len == g_len, "the content of the frame is complete");
	vf_assert(g_pos + 1 < g_n && g_s[g_pos] == ESC && g_s[g_pos + 1] == '\\', "a frame is delivered at its end marker");
	g_pos += 2;
	g_in = false;
	g_frames++;
}
// no start marker within what is not in a frame
SPEC bool clean(u64 k) { return k + 1 >= g_n || k < g_pos || g_s[k + 1] != '_' || g_s[k] != ESC; }

struct Down : public ProtocolLayer {
	size_t calls, done, pos;
	bool start;
	Down() : calls(), done(), pos(), start() {}
};

#ifdef VF_PROVE
// contract of Vector<char>, which holds the content of the frame
#define V "_ZNSt6vectorIcSaIcEE"
typedef std::vector<char> VC_t;
extern "C" void vfc___ZNSt6vectorIcSaIcEE9push_backERKc(VC_t*, char const* c) { content((uint8_t)*c); }
extern "C" void vfc___ZNSt6vectorIcSaIcEE9push_backEOc(VC_t*, char const* c) { content((uint8_t)*c); }
extern "C" void vfc___ZNSt6vectorIcSaIcEE5clearEv(VC_t*) { g_len = 0; }
extern "C" char* vfc___ZNSt6vectorIcSaIcEE4dataEv(VC_t*) { return (char*)&g_data; }
extern "C" size_t vfc___ZNKSt6vectorIcSaIcEE4sizeEv(VC_t const*) { return g_len; }
extern "C" bool vfc___ZNKSt6vectorIcSaIcEE5emptyEv(VC_t const*) { return g_len == 0; }

struct Up : public ProtocolLayer {
	virtual void decode(void* buffer, size_t len) override
	{
		vf_assert(buffer == &g_data, "the content of the frame");
		deliver(len);
	}
};
struct T : public TerminalLayer {
	virtual void nonDebugDecode(void* buffer, size_t len) override
	{
		uint8_t const* b = (uint8_t const*)buffer;
		vf_assert(!g_in, "no data is passed from within a frame");
		vf_assert(len <= g_n - g_pos, "only the bytes of the stream");
		if(len) {
			u64 j = vf_index(len, "j");
			vf_assert(b[j] == g_s[g_pos + j], "other data is passed unchanged and in order");
			if(j) vf_assert(!(b[j] == '_' && b[j - 1] == ESC), "frames are not passed as other data");
		}
		g_pos += len;
	}
};
static L::State* g_st;
// in front of byte i
SPEC bool inv_i(u64 i)
{
	if((i >= g_n) | (g_pos > g_n) | (!g_in & (g_len != 0))) return false;
	bool e = g_s[i] == ESC;
	bool lazy = !g_in & (g_pos + 1 < g_n) & (g_pos <= i);
	if(lazy) lazy = g_s[g_pos] == ESC && g_s[g_pos + 1] == '_';
	switch(*g_st) {
	case L::StateNormal: return !g_in & !e & (g_pos <= i + 1);
	case L::StateNormalEsc: return !g_in & e & (g_pos <= i);
	case L::StateDebug: return g_in ? g_pos == i + 1 && !(g_len && g_prev == ESC) : lazy & (g_pos + 1 == i);
	case L::StateDebugEsc: return e && (g_in ? g_pos == i : lazy & (g_pos + 2 == i));
	default: return false;
	}
}
// and the other data starts at nd
SPEC bool inv_nd(u64 i, u64 nd)
{
	if(*g_st < L::StateDebug) return nd <= i && (g_pos == nd + 1 || ((i == 0) & (nd == 0) & (g_pos == 0) & (*g_st == L::StateNormalEsc)));
	return nd + 1 == g_n;
}

static void decode_any(L::State st)
{
	size_t n = vf_size("len");
	uint8_t* s = (uint8_t*)vf_alloc(n + 1, "stream");
	bool pend = st == L::StateNormalEsc || st == L::StateDebugEsc;
	g_s = s; g_n = n + 1; g_pos = pend ? 0 : 1;
	s[0] = pend ? ESC : 0;
	g_in = st >= L::StateDebug;
	g_len = (size_t)vf_u64("content");
	vf_assume(g_len < (1ull << 40));
	if(!g_in) g_len = 0;
	g_prev = vf_u8("prev");
	if(st == L::StateDebug) vf_assume(!g_len || g_prev != ESC);
	Up up;
	T l;
	l.m_decodeState = st;
	l.setUp(&up);
	g_st = &l.m_decodeState;
	vf_closed_("_ZNSt6vectorIcSaIcEE");
	vf_closed_("_ZNKSt6vectorIcSaIcEE");
	vf_lean_(true);
	vf_region_(clean);
	vf_invariant_at_(inv_i);
	vf_invariant_at2_(inv_nd);
	l.decode(s + 1, n);
	L::State e = l.m_decodeState;
	// what is not accounted for, is a last ESC
	bool pend2 = e == L::StateNormalEsc || e == L::StateDebugEsc;
	if(e >= L::StateDebug) start_marker();
	if(pend2) {
		vf_assert(g_pos + 1 == g_n, "at most one byte is held back");
		vf_assert(s[n] == ESC, "only an ESC is held back");
	}
	else vf_assert(g_pos == g_n, "all bytes are handled");
	vf_assert(g_in == (e >= L::StateDebug), "the end of the chunk is within a frame or not");
	vf_cover("decode");
}
PVC(term_decode_normal) { decode_any(L::StateNormal); }
PVC(term_decode_normal_esc) { decode_any(L::StateNormalEsc); }
PVC(term_decode_debug) { decode_any(L::StateDebug); }
PVC(term_decode_debug_esc) { decode_any(L::StateDebugEsc); }
#endif

// ---------------------------------------------------------------- encode
struct Sink : public ProtocolLayer {
	uint8_t const* msg;
	size_t len, pos, got;
	bool partial;   // a frame was started before this call
	bool started, ended;
	virtual void encode(void const* buffer, size_t n, bool last) override
	{
		uint8_t const* b = (uint8_t const*)buffer;
		vf_assert(!ended, "nothing follows the end marker");
		if(!started) {
			vf_assert(n == 2 && b[0] == ESC && b[1] == '_' && !last, "the frame starts with a start marker");
			started = true;
		} else if(!got) {
			vf_assert(n == len && !last, "the message, in one piece");
			if(n) { u64 j = vf_index(n, "j"); vf_assert(b[j] == msg[j], "the message is sent unchanged"); }
			got = 1;
		} else {
			vf_assert(n == 2 && b[0] == ESC && b[1] == '\\' && last, "the frame ends with an end marker");
			ended = true;
		}
	}
	using ProtocolLayer::encode;
};
VC(term_encode)
{
	size_t n = vf_size("len");
	uint8_t* m = (uint8_t*)vf_alloc(n, "message");
	bool last = vf_bool("last"), partial = vf_bool("partial");
	Sink d;
	d.msg = m; d.len = n; d.got = 0; d.started = partial; d.ended = false;
	L l;
	l.m_encodeState = partial;
	l.setDown(&d);
	l.encode(m, n, last);
	vf_assert(d.started && d.got == 1 && d.ended == last, "one start marker, the message, and the end marker after the last part");
	vf_assert(l.m_encodeState == !last, "a frame is open as long as the last part has not been sent");
	vf_cover("encode");
}

// ---------------------------------------------------------------- histories
#ifndef VF_PROVE
struct Rec : public ProtocolLayer {
	std::vector<std::string> frames; std::string raw; int lasts;
	Rec() : lasts() {}
	virtual void decode(void* b, size_t n) override { frames.push_back(std::string((char*)b, n)); }
	virtual void encode(void const* b, size_t n, bool last) override { raw.append((char const*)b, n); lasts += last; }
	using ProtocolLayer::encode;
};
VC(term_stream)
{
	// a stream with many markers, in random chunks
	std::string s;
	while(s.size() < 400 && vf_more("token")) switch(vf_u8("kind") % 8) {
	case 0: s += "\x1b_"; break;
	case 1: s += "\x1b\\"; break;
	case 2: s += "\x1b"; break;
	case 3: s += "_"; break;
	case 4: s += "\\"; break;
	case 5: s += "abc"; break;
	default: s += (char)vf_u8("c");
	}
	std::vector<std::string> frames; std::string plain;
	size_t p = 0;
	while(p < s.size()) {
		size_t q = s.find("\x1b_", p);
		if(q == std::string::npos) { size_t e = s.size(); if(s[e - 1] == '\x1b') e--; plain += s.substr(p, e - p); break; }
		plain += s.substr(p, q - p);
		size_t e = s.find("\x1b\\", q + 2);
		if(e == std::string::npos) break;
		frames.push_back(s.substr(q + 2, e - q - 2));
		p = e + 2;
	}
	std::string got;
	L l([&](void* b, size_t n) { got.append((char*)b, n); });
	Rec up; l.setUp(&up); up.setDown(&l);
	std::string c = s;
	for(size_t i = 0; i < c.size();) {
		size_t n = std::min<size_t>(c.size() - i, vf_bool("one") ? 1 : 1 + vf_u8("chunk") % 40);
		std::vector<char> chunk(c.begin() + (long)i, c.begin() + (long)(i + n));
		l.decode(chunk.data(), n);
		i += n;
	}
	vf_assert(up.frames == frames, "the frames in the stream");
	vf_assert(got == plain, "the other data in the stream");
	vf_cover("stream");
}
VC(term_history)
{
	// messages and other output, sent through one terminal layer and received by another
	L a; Rec down; a.setDown(&down); down.setUp(&a);
	std::vector<std::string> msgs; std::string plain; int lasts = 0;
	while(msgs.size() < 10 && vf_more("op")) {
		if(vf_bool("message")) {
			std::string m;
			int parts = 1 + vf_u8("parts") % 3;
			for(int i = 0; i < parts; i++) {
				std::string x; size_t n = vf_u8("len") % 20;
				while(x.size() < n) { char c = (char)vf_u8("c"); if(c == '\\' || c == '_') c = 'x'; x += c; }
				a.encode(x.data(), x.size(), i == parts - 1);
				m += x;
			}
			msgs.push_back(m); lasts++;
		} else {
			std::string x; size_t n = vf_u8("len") % 20;
			while(x.size() < n) { char c = (char)vf_u8("c"); if(c == 0x1b) c = 'x'; x += c; }
			a.nonDebugEncode(x.data(), x.size());
			plain += x; if(n) lasts++;
		}
	}
	vf_assert(down.lasts == lasts, "the last chunk of every message is marked");
	std::string got;
	L b([&](void* p, size_t n) { got.append((char*)p, n); });
	Rec up; b.setUp(&up); up.setDown(&b);
	std::string r = down.raw;
	for(size_t i = 0; i < r.size();) { size_t n = std::min<size_t>(r.size() - i, 1 + vf_u8("chunk") % 40); b.decode(&r[i], n); i += n; }
	vf_assert(up.frames == msgs, "all messages arrive");
	vf_assert(got == plain, "other data is passed");
	vf_cover("history");
}
#endif
