// C03: SegmentationLayer, BufferLayer
#include "vf.h"
#include <stored>
#ifdef VF_PROVE
#	include "/repo/src/protocol.cpp"
#else
#	include <string>
#	include <vector>
#endif
using namespace stored;
typedef SegmentationLayer L;

// ---------------------------------------------------------------- segmentation: encode
static uint8_t const* g_msg;
static size_t g_n, g_pos, g_seg, g_max, g_segs;
static bool g_ended;

struct SegDown : public ProtocolLayer {
	size_t mtu_;
	virtual size_t mtu() const override { return mtu_; }
	virtual void encode(void const* buffer, size_t len, bool last) override
	{
		uint8_t const* b = (uint8_t const*)buffer;
		vf_assert(!g_ended, "nothing follows the end of the message");
		vf_assert(len <= g_max - g_seg, "every segment fits the MTU");
		if(last) {
			vf_assert(len == 1 && (b[0] == L::EndMarker || b[0] == L::ContinueMarker), "a segment ends with a marker");
			if(b[0] == L::EndMarker) { vf_assert(g_pos == g_n, "the end marker follows the last byte"); g_ended = true; }
			else vf_assert(g_pos < g_n, "more follows after the continue marker");
			g_seg = 0; g_segs++;
		} else {
			vf_assert(len <= g_n - g_pos, "only the bytes of the message");
			if(len) { u64 j = vf_index(len, "j"); vf_assert(b[j] == g_msg[g_pos + j], "the bytes of the message, in order"); }
			g_pos += len;
			g_seg += len;
			vf_assert(g_seg < g_max, "there is space for the marker");
		}
	}
	using ProtocolLayer::encode;
};
static L* g_l;
SPEC bool inv_seg() { return (g_seg == g_l->m_encoded) & (g_seg < g_max) & (g_pos <= g_n) & !g_ended; }
SPEC bool inv_left(u64 left) { return g_pos + left == g_n; }
SPEC bool inv_at(u64 at) { return at == g_pos; }

VC(seg_encode)
{
	size_t n = vf_size("len"), m = vf_size("mtu"), lm = vf_size("lower mtu");
	bool last = vf_bool("last");
	uint8_t* msg = (uint8_t*)vf_alloc(n, "message");
	size_t x = m && (!lm || m < lm) ? m : lm;
	if(x == 1) return; // a segment has at least one byte and a marker
	g_max = x ? x : (size_t)-1;
	g_msg = msg; g_n = n; g_pos = 0; g_segs = 0; g_ended = false;
	SegDown d; d.mtu_ = lm;
	L l(m); g_l = &l;
	l.setDown(&d);
	size_t e = vf_size("encoded");
#ifndef VF_PROVE
	if(e >= g_max) e %= g_max;
#endif
	vf_assume(e < g_max);
	l.m_encoded = g_seg = e;
	vf_assert(l.mtu() == 0 && (x == 0 ? l.lowerMtu() == 0 : l.lowerMtu() == x), "the MTU of the segments");
	vf_invariant_(inv_seg);
	vf_invariant_at_(inv_left);
	vf_invariant_at_(inv_at);
	l.encode(msg, n, last);
	vf_assert(g_pos == n, "the message is sent completely");
	vf_assert(g_ended == last, "the end marker follows the last part");
	vf_assert(l.m_encoded == g_seg, "the size of the current segment is known");
	vf_assert(!last || g_seg == 0, "the next message starts with a new segment");
	vf_cover("encode");
	if(g_segs > 2) vf_cover("several segments");
}

// ---------------------------------------------------------------- segmentation: decode
static uint8_t const* g_buf; // what the vector has
static size_t g_len;         // size of the vector
static uint8_t const* g_old; // what was received before this segment
static uint8_t const* g_new; // the segment
static size_t g_oldn, g_newn;
static int g_up;

static void reassembled(uint8_t const* b, size_t len)
{
	vf_assert(g_newn && g_new[g_newn - 1] == L::EndMarker, "a message is passed at the end marker");
	vf_assert(len == g_oldn + g_newn - 1, "the message is complete");
	if(g_oldn) { u64 j = vf_index(g_oldn, "j"); vf_assert(b[j] == g_old[j], "the earlier segments are unchanged and in front"); }
	if(g_newn > 1) { u64 j = vf_index(g_newn - 1, "j"); vf_assert(b[g_oldn + j] == g_new[j], "the last segment follows"); }
	g_up++;
}
struct SegUp : public ProtocolLayer {
	virtual void decode(void* buffer, size_t len) override { reassembled((uint8_t const*)buffer, len); }
};
#ifdef VF_PROVE
// contract of std::vector<char>
typedef std::vector<char> V;
extern "C" size_t vfc___ZNKSt6vectorIcSaIcEE4sizeEv(V const*) { return g_len; }
extern "C" bool vfc___ZNKSt6vectorIcSaIcEE5emptyEv(V const*) { return g_len == 0; }
extern "C" char* vfc___ZNSt6vectorIcSaIcEE4dataEv(V*) { return (char*)g_buf; }
extern "C" void vfc___ZNSt6vectorIcSaIcEE5clearEv(V*) { g_len = 0; }
extern "C" void vfc___ZNSt6vectorIcSaIcEE6resizeEm(V*, size_t n) { g_len = n; }
extern "C" char* vfc___ZNSt6vectorIcSaIcEEixEm(V*, size_t i) { vf_assert(i < g_len, "an element of the vector"); return (char*)g_buf + i; }
PVC(seg_decode)
{
	g_oldn = vf_size("old"); g_newn = vf_size("len");
	uint8_t* buf = (uint8_t*)vf_alloc(g_oldn + g_newn, "reassembly");
	uint8_t* old = (uint8_t*)malloc(g_oldn + 1); memcpy(old, buf, g_oldn);
	uint8_t* seg = (uint8_t*)vf_alloc(g_newn, "segment");
	uint8_t* seg0 = (uint8_t*)malloc(g_newn + 1); memcpy(seg0, seg, g_newn);
	g_buf = buf; g_len = g_oldn; g_old = old; g_new = seg0; g_up = 0;
	vf_closed_("_ZNSt6vectorIcSaIcEE"); vf_closed_("_ZNKSt6vectorIcSaIcEE");
	SegUp up;
	L l;
	l.setUp(&up);
	l.decode(seg, g_newn);
	if(!g_newn) { vf_assert(!g_up && g_len == g_oldn, "nothing happens"); return; }
	bool end = seg0[g_newn - 1] == L::EndMarker;
	vf_assert(g_up == (end ? 1 : 0), "the message is passed once, at its end");
	if(end) vf_assert(g_len == 0, "the next message starts empty");
	else {
		vf_assert(g_len == g_oldn + g_newn - 1, "the segment is kept");
		if(g_oldn) { u64 j = vf_index(g_oldn, "j"); vf_assert(buf[j] == old[j], "the earlier segments are kept"); }
		if(g_newn > 1) { u64 j = vf_index(g_newn - 1, "j"); vf_assert(buf[g_oldn + j] == seg0[j], "the segment is appended"); }
	}
	vf_cover("decode");
}
#endif

// ---------------------------------------------------------------- buffer layer
// g_old (g_oldn bytes) is in the buffer, followed by g_msg (g_n bytes) of this call
static bool g_last;
static size_t g_size, g_calls;
static uint8_t at(size_t i) { return i < g_oldn ? g_old[i] : g_msg[i - g_oldn]; }
struct BufDown : public ProtocolLayer {
	virtual void encode(void const* buffer, size_t len, bool last) override
	{
		uint8_t const* b = (uint8_t const*)buffer;
		vf_assert(!g_ended, "nothing follows the last chunk");
		vf_assert(len <= g_oldn + g_n - g_pos, "only the bytes of the message");
		vf_assert(len <= g_size, "chunks fit in the buffer");
		if(len) { u64 j = vf_index(len, "j"); vf_assert(b[j] == at(g_pos + j), "the bytes of the message, in order"); }
		g_pos += len;
		if(g_calls < 2) g_calls++;
		if(last) g_ended = true;
	}
	using ProtocolLayer::encode;
};
#ifdef VF_PROVE
// contract of std::string
#define S(n) vfc___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE##n
#define SK(n) vfc___ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE##n
typedef std::string Str;
extern "C" size_t SK(4sizeEv)(Str const*) { return g_len; }
extern "C" bool SK(5emptyEv)(Str const*) { return g_len == 0; }
extern "C" char const* SK(4dataEv)(Str const*) { return (char const*)g_buf; }
extern "C" char* S(4dataEv)(Str*) { return (char*)g_buf; }
extern "C" void S(5clearEv)(Str*) { g_len = 0; }
extern "C" Str* S(6appendEPKcm)(Str* s, char const* p, size_t n)
{
	vf_assert(n <= g_size - g_len, "the buffer holds at most its size");
	memcpy((void*)(g_buf + g_len), p, n);
	g_len += n;
	return s;
}
SPEC bool inv_buf() { return (g_len <= g_size) & (g_pos <= g_oldn + g_n) & !g_ended; }
SPEC bool inv_rest(u64 len) { return g_pos + g_len + len == g_oldn + g_n; }
SPEC bool inv_src(u64 off) { return g_oldn + off == g_pos + g_len; }
SPEC bool inv_rem(u64 rem) { return rem == g_size - g_len; }
SPEC bool inv_calls() { return g_calls ? (g_pos >= g_size) & (g_pos < g_oldn + g_n) : g_pos == 0; }
SPEC bool inv_first() { return g_pos ? (g_len == 0) & (g_pos >= g_oldn) : g_len == g_oldn; }
SPEC bool region_buf(u64 j) { return j >= g_len || g_buf[j] == at(g_pos + j); }
PVC(buf_encode)
{
	g_size = vf_size("size");
	vf_assume(g_size > 0);
	g_n = vf_size("len"); g_oldn = vf_size("old");
	vf_assume(g_oldn <= g_size);
	g_last = vf_bool("last");
	uint8_t* buf = (uint8_t*)vf_alloc(g_size, "buffer");
	uint8_t* old = (uint8_t*)malloc(g_oldn + 1); memcpy(old, buf, g_oldn);
	uint8_t* msg = (uint8_t*)vf_alloc(g_n, "message");
	g_buf = buf; g_len = g_oldn; g_old = old; g_msg = msg; g_pos = 0; g_calls = 0; g_ended = false;
	BufDown d;
	BufferLayer l(g_size);
	l.setDown(&d);
	vf_closed_("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"); vf_closed_("_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE");
	vf_lean_(true);
	vf_invariant_(inv_buf);
	vf_invariant_(inv_first);
	vf_invariant_(inv_calls);
	vf_invariant_at_(inv_rest);
	vf_invariant_at_(inv_src);
	vf_invariant_at_(inv_rem);
	l.encode(msg, g_n, g_last);
	vf_assert(g_ended == g_last, "the last chunk is marked");
	vf_assert(g_pos + g_len == g_oldn + g_n, "every byte is sent or kept");
	if(g_last) vf_assert(g_len == 0, "nothing is kept of a complete message");
	else if(g_len) { u64 j = vf_index(g_len, "j"); vf_assert(g_buf[j] == at(g_pos + j), "the rest is kept in order"); }
	if(g_oldn + g_n <= g_size && g_last) vf_assert(g_calls == 1, "what fits is sent as a single chunk");
	if(g_oldn + g_n < g_size && !g_last) vf_assert(g_calls == 0, "a part that fits is kept");
	vf_cover("encode");
	free(old);
}
#endif

// ---------------------------------------------------------------- histories
#ifndef VF_PROVE
struct Rec : public ProtocolLayer {
	std::vector<std::string> msgs; std::string part; size_t mtu_, chunks; std::vector<size_t> n;
	Rec() : mtu_(), chunks() {}
	virtual void decode(void* b, size_t n) override { msgs.push_back(std::string((char*)b, n)); }
	virtual size_t mtu() const override { return mtu_; }
	virtual void encode(void const* b, size_t len, bool last) override
	{
		part.append((char const*)b, len); chunks++;
		if(last) { msgs.push_back(part); n.push_back(chunks); part.clear(); chunks = 0; }
	}
	using ProtocolLayer::encode;
};
VC(seg_history)
{
	size_t m = vf_u8("mtu") % 30, lm = vf_u8("lower") % 30;
	size_t x = m && (!lm || m < lm) ? m : lm;
	if(x == 1) { m = lm = 0; x = 0; }
	Rec down, up; L a(m), b(m);
	down.mtu_ = lm;
	a.setDown(&down); b.setUp(&up); up.setDown(&b);
	std::vector<std::string> msgs;
	std::string cur;
	int ops = 0;
	while(ops++ < 30 && vf_more("op")) {
		std::string t; size_t n = vf_u8("len") % 100;
		char c = (char)vf_u8("c"), step = (char)vf_u8("step");
		for(size_t i = 0; i < n; i++, c = (char)(c + step)) t += vf_isnative() && (i % 7) == 3 ? (i % 2 ? 'E' : 'C') : c;
		bool last = vf_bool("last");
		a.encode(t.data(), t.size(), last);
		cur += t;
		if(last) { msgs.push_back(cur); cur.clear(); }
		if(vf_u8("reset") == 77) { a.reset(); b.reset(); down.part.clear(); cur.clear(); down.msgs.clear(); up.msgs.clear(); msgs.clear(); continue; }
		for(size_t i = 0; i < down.msgs.size(); i++) {
			std::string s = down.msgs[i];
			if(x) vf_assert(s.size() <= x, "every segment fits the MTU");
			b.decode(s.empty() ? nullptr : &s[0], s.size());
		}
		down.msgs.clear();
		vf_assert(up.msgs == msgs, "messages arrive complete, in order, and when the last part is sent");
	}
	vf_cover("history");
	up.setDown(nullptr); b.setUp(nullptr); a.setDown(nullptr);
}
VC(buf_history)
{
	size_t size = vf_u8("size") % 40;
	Rec down; BufferLayer a(size); a.setDown(&down);
	std::string cur; std::vector<std::string> msgs;
	int ops = 0;
	while(ops++ < 30 && vf_more("op")) {
		std::string t; size_t n = vf_u8("len") % 60;
		char c = (char)vf_u8("c");
		for(size_t i = 0; i < n; i++) t += c++;
		bool last = vf_bool("last");
		a.encode(t.data(), t.size(), last);
		cur += t;
		if(last) {
			msgs.push_back(cur);
			vf_assert(down.msgs == msgs, "every message is sent completely, when it ends");
			if(!size || cur.size() < size) vf_assert(down.n.back() == 1, "what fits is sent as a single chunk");
			cur.clear();
		} else {
			vf_assert(cur.compare(0, down.part.size(), down.part) == 0, "the bytes of the message, in order");
			if(!size || cur.size() < size) vf_assert(down.part.empty(), "a part that fits is kept");
		}
	}
	vf_cover("history");
	a.setDown(nullptr);
}
#endif
