// C06: DebugArqLayer
#include "vf.h"
#include <stored>
#ifdef VF_PROVE
#	include "/repo/src/protocol.cpp"
#else
#	include <deque>
#	include <string>
#	include <vector>
#endif
using namespace stored;
typedef DebugArqLayer L;

#ifdef VF_PROVE
static uint32_t nextseq(uint32_t s) { uint32_t n = (s + 1) & 0x7ffffff; return n + (n == 0); }
static u64 hdrlen(uint32_t s) { return s < 0x40 ? 1 : s < 0x2000 ? 2 : s < 0x100000 ? 3 : 4; }
// ---------------------------------------------------------------- sequence numbers
PVC(darq_seq)
{
	vf_recursive_("_ZN6stored13DebugArqLayer9decodeSeqERPhRm");
	uint32_t s = vf_u32("seq");
	vf_assume(s < 0x8000000);
	uint8_t* b = (uint8_t*)vf_alloc(8, "frame");
	size_t n = L::encodeSeq(s, b);
	vf_assert(n == hdrlen(s), "length of the encoded number");
	vf_assert(!(b[0] & L::ResetFlag), "the reset flag is not set");
	if(vf_bool("reset")) b[0] |= L::ResetFlag; // does not influence the number
	uint8_t* p = b; size_t len = 8;
	vf_unroll_(6);
	vf_assert(L::decodeSeq(p, len) == s, "the encoded sequence number is decoded again");
	vf_assert(p == b + n && len == 8 - n, "exactly the sequence number is taken");
	vf_assert(L::nextSeq(s) == nextseq(s) && L::nextSeq(s) != 0, "the next sequence number");
	vf_cover("seq");
}
static uint8_t* g_frame; static size_t g_fn, g_hdr; // bytes of the header, g_fn+1 when it is cut off
static uint8_t flagat(u64 i) { return i ? 0x80 : 0x40; }
SPEC bool inv_len(size_t len) { return len <= g_fn; }
SPEC bool inv_pos(u64 p, u64 len) { return (p == g_fn - len) & (p <= g_fn) & (p < g_hdr); } // p: offset in the frame
SPEC bool inv_flag(u64 flag, u64 p) { return flag == (p == 0 ? 0x40 : 0x80); }
PVC(darq_decodeseq)
{
	vf_recursive_("_ZN6stored13DebugArqLayer9decodeSeqERPhRm");
	g_fn = vf_size("len");
	g_frame = (uint8_t*)vf_alloc(g_fn, "frame");
	// the header ends at the first byte without continuation flag
	g_hdr = vf_size("header");
	vf_assume((g_hdr >= 1) & (g_hdr <= g_fn + 1));
	vf_assume_forall_([](u64 i) -> bool { return (i + 1 >= g_hdr) | ((g_frame[i] & flagat(i)) != 0); });
	if(g_hdr <= g_fn) vf_assume((g_frame[g_hdr - 1] & flagat(g_hdr - 1)) == 0);
	vf_invariant_at_(inv_len);
	vf_invariant_at2_(inv_pos); vf_invariant_at2n_(inv_flag);
	uint8_t* p = g_frame; size_t len = g_fn;
	uint32_t s = L::decodeSeq(p, len);
	if(g_hdr <= g_fn) vf_assert(p == g_frame + g_hdr && len == g_fn - g_hdr, "exactly the sequence number is taken");
	else vf_assert(s == ~0u && p == g_frame + g_fn, "a truncated sequence number");
	vf_cover("decodeseq");
}
// ---------------------------------------------------------------- any state of the layer
// contract of std::vector<std::string>: the strings are opaque, number i is at g_base + 32 * i, and its data at g_data + i
typedef std::string S; typedef std::vector<S> V;
static char* g_base; static char* g_data; static u64 g_bufs, g_max;
static u64 g_apn; static int g_aps; static char const* g_apd; static u64 g_lastsize; // append to the last string
#define SIZE(i) vf_app1("size", i)
static u64 at(S const* s) { u64 o = (u64)s - (u64)g_base; vf_assert((o & 31) == 0 && o / 32 < g_bufs, "an element of the vector"); return o / 32; }
#define N "_ZNSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EE"
extern "C" bool vfc___ZNKSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EE5emptyEv(V const*) { return g_bufs == 0; }
extern "C" S* vfc___ZNSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EE5beginEv(V*) { return (S*)g_base; }
extern "C" S* vfc___ZNSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EE3endEv(V*) { return (S*)(g_base + 32 * g_bufs); }
extern "C" S* vfc___ZNSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EE4backEv(V*) { vf_assert(g_bufs > 0, "the last element"); return (S*)(g_base + 32 * (g_bufs - 1)); }
extern "C" void vfc___ZNSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EE5clearEv(V*) { g_bufs = 0; }
static int g_news; static uint8_t g_new[4]; static u64 g_newlen;
extern "C" S* vfc___ZNSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EE12emplace_backIJPcRmEEERS5_DpOT_(V*, char** p, size_t* n)
{
	vf_assert(g_news++ == 0 && *n <= 4, "one new message, with a sequence number");
	memcpy(g_new, *p, 4); g_newlen = g_lastsize = *n;
	g_bufs++;
	return (S*)(g_base + 32 * (g_bufs - 1));
}
extern "C" char* vfc___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4dataEv(S* s) { return g_data + at(s); }
extern "C" char const* vfc___ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4dataEv(S const* s) { return g_data + at(s); }
extern "C" size_t vfc___ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4sizeEv(S const* s) { u64 i = at(s); return i + 1 == g_bufs ? g_lastsize : SIZE(i); }
extern "C" S* vfc___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE6appendEPKcm(S* s, char const* d, size_t n)
{
	vf_assert(at(s) + 1 == g_bufs && g_aps++ == 0, "appended once to the last message");
	g_apd = d; g_apn = n; g_lastsize += n;
	return s;
}
static L* g_l;
struct Sent { u64 data, len; bool last; };
//! frames at the lower layer
static u64 g_calls, g_resent; static bool g_again; static uint8_t g_b0; static Sent g_s[3];
struct Down : public ProtocolLayer {
	virtual void encode(void const* buffer, size_t len, bool last) override
	{
		if(g_again) { // the buffered response is expected
			vf_assert(g_resent < g_bufs && (char*)buffer == g_data + g_resent && len == (g_resent + 1 == g_bufs ? g_lastsize : SIZE(g_resent)) && last, "the messages of the response again, in order");
			g_resent++;
		} else {
			vf_assert(g_calls < 3, "not too much is sent");
			if(g_calls == 0 && len) g_b0 = *(uint8_t*)buffer;
			g_s[g_calls].data = (u64)buffer; g_s[g_calls].len = len; g_s[g_calls].last = last;
			g_calls++;
		}
	}
	using ProtocolLayer::encode;
};
static bool seqok(uint32_t s) { return (s >= 1) & (s <= 0x7ffffff); }
//! any state of the layer in between calls
static void state(L& l, Down& d)
{
	vf_closed_(N); vf_closed_("_ZNKSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EE");
	vf_specfn_("size", nullptr, 0);
	g_l = &l;
	g_bufs = vf_size("messages"); g_lastsize = vf_size("size of the last");
	g_base = (char*)vf_alloc(32 * g_bufs + 32, "strings"); g_data = (char*)vf_alloc(g_bufs + 1, "data");
	uint32_t ds = vf_u8("decode state") & 3, es = vf_u8("encode state") & 3;
	memcpy(&l.m_decodeState, &ds, sizeof(l.m_decodeState)); memcpy(&l.m_encodeState, &es, sizeof(l.m_encodeState));
	l.m_decodeSeq = vf_u32("decode seq"); l.m_decodeSeqStart = vf_u32("start"); l.m_encodeSeq = vf_u32("encode seq");
	l.m_encodeSeqReset = vf_bool("reset pending");
	l.m_maxEncodeBuffer = vf_size("limit"); l.m_encodeBufferSize = vf_size("buffered");
	vf_assume(seqok(l.m_decodeSeq) & seqok(l.m_encodeSeq));
	vf_assume((ds == L::DecodeStateIdle) | ((l.m_decodeSeqStart != nextseq(l.m_decodeSeq)) & seqok(l.m_decodeSeqStart))); // not that many messages in one request
	vf_assume((ds != L::DecodeStateDecoded) & (ds != L::DecodeStateRetransmit) | (l.m_decodeSeqStart != l.m_decodeSeq));
	l.setDown(&d);
}
// ---------------------------------------------------------------- a request
static uint8_t* g_tail; static u64 g_taillen; static int g_ups; static uint32_t g_seq; static bool g_isreset;
struct Up : public ProtocolLayer {
	virtual void decode(void* buffer, size_t len) override
	{
		vf_assert(g_ups++ == 0 && buffer == g_tail && len == g_taillen, "the content of the frame is passed once");
		vf_assert(g_l->m_decodeState == L::DecodeStateDecoding, "this part of the request is new");
		vf_assert(g_l->m_encodeState == L::EncodeStateIdle || g_l->m_encodeState == L::EncodeStateUnbufferedIdle, "there is no response yet");
		// the upper layer may send a response
		if(vf_bool("response")) {
			*(uint32_t*)&g_l->m_decodeState = L::DecodeStateDecoded;
			*(uint32_t*)&g_l->m_encodeState = vf_bool("purged") ? L::EncodeStateUnbufferedIdle : L::EncodeStateIdle;
			g_bufs = vf_size("new messages");
		}
	}
};
extern "C" uint32_t vfc___ZN6stored13DebugArqLayer9decodeSeqERPhRm(uint8_t** p, size_t* len)
{
	vf_assert(*p == g_frame && *len == g_fn, "the sequence number is in front");
	// verified by darq_decodeseq
	if(g_hdr > g_fn) { *p += g_fn; *len = ~(size_t)0; return ~0u; }
	*p += g_hdr; *len -= g_hdr;
	return g_seq;
}
SPEC bool inv_resent(u64 it) { return (it == 32 * g_resent) & (g_resent <= g_bufs); } // it: offset
PVC(darq_decode)
{
	Down d; L l; Up up;
	state(l, d);
	l.setUp(&up);
	uint32_t ds = l.m_decodeState, es = l.m_encodeState, q = l.m_decodeSeq, start = l.m_decodeSeqStart, eq = l.m_encodeSeq;
	bool er = l.m_encodeSeqReset;
	// the response is complete in between requests
	vf_assume((ds == L::DecodeStateRetransmit) ? es == L::EncodeStateIdle : (es == L::EncodeStateIdle) | (es == L::EncodeStateUnbufferedIdle));
	vf_assume((es != L::EncodeStateUnbufferedIdle) | (g_bufs == 0));
	g_fn = vf_size("len"); g_frame = (uint8_t*)vf_alloc(g_fn, "frame");
	g_hdr = vf_size("header"); vf_assume((g_hdr >= 1) & (g_hdr <= g_fn + 1));
	g_seq = vf_u32("seq");
	uint32_t seq = g_hdr <= g_fn ? g_seq : ~0u;
	g_tail = g_frame + g_hdr; g_taillen = g_fn - g_hdr;
	bool reset = g_fn && (g_frame[0] & L::ResetFlag);
	bool inseq = (g_fn > 0) & !reset & (seq == q) & (ds != L::DecodeStateRetransmit);
	bool redo = (g_fn > 0) & !reset & (ds == L::DecodeStateDecoded) & (seq == start) & (seq != q) & (es == L::EncodeStateUnbufferedIdle);
	bool resend = (g_fn > 0) & !reset & (((ds == L::DecodeStateDecoded) & (seq == start) & (seq != q) & (es == L::EncodeStateIdle)) | (ds == L::DecodeStateRetransmit));
	bool again = resend & (nextseq(seq) == q);
	g_again = again;
	u64 bufs = g_bufs;
	vf_invariant_at_(inv_resent);
	l.decode(g_frame, g_fn);
	vf_assert(g_ups == (inseq | redo ? 1 : 0), "the frame is passed when it is the next part of the request, or when the request has to be executed again");
	vf_assert(!again | (g_resent == bufs), "the response is sent again after the last part of the request");
	vf_assert(again | (g_resent == 0), "the response is only sent again after the last part of the request");
	vf_assert(g_calls == (reset ? 1 : 0), "nothing else is sent");
	if(reset) vf_assert((g_s[0].len == 1) & g_s[0].last & (g_b0 == L::ResetFlag), "a reset is acknowledged");
	uint32_t nds = l.m_decodeState, nes = l.m_encodeState;
	if(reset) vf_assert((l.m_decodeSeq == nextseq(seq)) & (l.m_encodeSeq == 1) & !l.m_encodeSeqReset & (g_bufs == 0) & (nds == L::DecodeStateDecoding) & (l.m_decodeSeqStart == l.m_decodeSeq) & (nes == L::EncodeStateIdle), "the state after a reset");
	else {
		vf_assert(l.m_decodeSeq == (redo ? nextseq(start) : inseq ? nextseq(q) : q), "the next sequence number");
		vf_assert(l.m_encodeSeq == eq, "the sequence number of the response");
		vf_assert(l.m_encodeSeqReset == (er | redo), "a response to a request that is executed again is marked");
		if(again) vf_assert(nds == L::DecodeStateDecoded, "after the response is sent again");
		else if(resend) vf_assert(nds == L::DecodeStateRetransmit, "waiting for the rest of the request");
		if(!(inseq | redo)) vf_assert((g_bufs == bufs) & (nes == es), "the buffered response is kept");
		if(inseq & (ds == L::DecodeStateDecoded)) vf_assert(l.m_decodeSeqStart == q, "the start of a request");
	}
	vf_cover("decode");
	if(again) vf_cover("again");
	if(redo) vf_cover("redo");
}
// ---------------------------------------------------------------- a response
PVC(darq_encode)
{
	Down d; L l;
	state(l, d);
	uint32_t ds = l.m_decodeState, es = l.m_encodeState, eq = l.m_encodeSeq;
	bool er = l.m_encodeSeqReset;
	bool start = (es == L::EncodeStateIdle) | (es == L::EncodeStateUnbufferedIdle), buffered = (es == L::EncodeStateIdle) | (es == L::EncodeStateEncoding);
	vf_assume((ds != L::DecodeStateDecoding) | start);
	vf_assume((es != L::EncodeStateEncoding) | (g_bufs > 0));
	vf_assume(buffered | (g_bufs == 0));
	u64 len = vf_size("len"); bool last = vf_bool("last");
	uint8_t* msg = (uint8_t*)vf_alloc(len, "message");
	u64 total = l.m_encodeBufferSize, bufs = g_bufs, lsize = g_lastsize;
	bool over = buffered & (l.m_maxEncodeBuffer > 0) & (total + len > l.m_maxEncodeBuffer);
	uint8_t hdr[4]; u64 h = L::encodeSeq(eq, hdr); // see darq_seq
	if(er) hdr[0] |= L::ResetFlag;
	l.encode(msg, len, last);
	vf_assert(l.m_decodeState == (ds == L::DecodeStateDecoding ? L::DecodeStateDecoded : ds), "a response starts after the request");
	vf_assert(l.m_encodeSeq == (start ? nextseq(eq) : eq), "every message has the next sequence number");
	vf_assert(l.m_encodeSeqReset == (er & !start), "the first message after a change is marked");
	if(buffered & !over) {
		vf_assert(g_bufs == bufs + (start ? 1 : 0), "a message is kept for a retransmit");
		if(start) vf_assert(g_newlen == h && g_new[0] == hdr[0] && (h < 2 || g_new[1] == hdr[1]) && (h < 3 || g_new[2] == hdr[2]) && (h < 4 || g_new[3] == hdr[3]), "it starts with the sequence number");
		vf_assert(g_aps == 1 && g_apd == (char*)msg && g_apn == len, "the data is added");
		vf_assert(l.m_encodeBufferSize == total + len + (start ? h : 0), "the size of the buffer");
		vf_assert(g_calls == (last ? 1 : 0), "a message is sent when it is complete");
		if(last) vf_assert(g_s[0].data == (u64)g_data + g_bufs - 1 && g_s[0].len == (start ? h : lsize) + len && g_s[0].last, "the complete message is sent");
		vf_assert(l.m_encodeState == (last ? L::EncodeStateIdle : L::EncodeStateEncoding), "the state of the response");
	} else {
		bool part = over & !start; // a part is still in the buffer
		vf_assert(g_calls == (start | part ? 2 : 1) && g_aps == 0 && g_bufs == 0, "what does not fit the buffer is sent immediately");
		if(start) vf_assert(g_s[0].len == h && g_b0 == hdr[0] && !g_s[0].last, "a message starts with its sequence number");
		else if(part) vf_assert(g_s[0].data == (u64)g_data + bufs - 1 && g_s[0].len == lsize && !g_s[0].last, "the part that was in the buffer is sent first");
		vf_assert(g_s[start | part ? 1 : 0].data == (u64)msg && g_s[start | part ? 1 : 0].len == len && g_s[start | part ? 1 : 0].last == last, "the data follows");
		vf_assert(l.m_encodeState == (last ? L::EncodeStateUnbufferedIdle : L::EncodeStateUnbufferedEncoding), "the state of the response");
	}
	vf_cover("encode");
	if(over & !start) vf_cover("overflow");
}
#endif

#ifndef VF_PROVE
// ---------------------------------------------------------------- histories with losses
static uint32_t next(uint32_t s) { return s == 0x7ffffff ? 1 : s + 1; }
static std::string enc(uint32_t s)
{
	std::string r; int n = s < 0x40 ? 1 : s < 0x2000 ? 2 : s < 0x100000 ? 3 : 4;
	for(int i = n - 1; i >= 0; i--) {
		unsigned b = (s >> (7 * i)) & 0x7f;
		if(i == n - 1) b = (b & 0x3f) | (i ? 0x40 : 0); else if(i) b |= 0x80;
		r += (char)b;
	}
	return r;
}
//! \return number of bytes, 0 when truncated
static size_t dec(std::string const& f, uint32_t& s, bool& reset)
{
	reset = !f.empty() && (f[0] & 0x80);
	s = 0;
	for(size_t i = 0; i < f.size(); i++) {
		unsigned b = (uint8_t)f[i];
		s = (s << 7) | (i ? b & 0x7f : b & 0x3f);
		if(!(b & (i ? 0x80 : 0x40))) return i + 1;
	}
	return 0;
}
struct App : public ProtocolLayer {
	std::vector<std::string> req; bool strict; //!< chunks of the request
	int execs; bool purge, over; size_t max;
	std::vector<std::string> resp, last; //!< response: content does not depend on the execution; the last one that was sent
	uint32_t* seq;
	App() : strict(true), execs(), purge(), over(), max(), seq() {}
	virtual void decode(void* b, size_t n) override
	{
		std::string s((char*)b, n);
		if(!strict) { if(s.empty() || !(s[0] & 1)) return; s.clear(); }
		else {
			vf_assert(n >= 2, "a chunk of the request");
			size_t i = (uint8_t)s[1];
			if(i == 0) req.clear();
			vf_assert(i == req.size(), "the request is complete and in order");
			req.push_back(s);
			if(!(s[0] & 1)) return;
		}
		exec();
	}
	void exec()
	{
		execs++;
		over = false;
		if(purge) { setPurgeableResponse(true); over = true; }
		last = resp;
		size_t total = 0;
		for(size_t i = 0; i < last.size(); i++) {
			if(purge) last[i] += (char)execs;
			size_t at = 0, n = last[i].size();
			total += enc(*seq).size();
			int parts = 0;
			do {
				size_t c = vf_u8("part") % 4 == 0 && parts < 5 ? vf_u8("bytes") % (n - at + 1) : n - at;
				if(max && total - (parts ? 0 : enc(*seq).size()) + c > max) over = true;
				char* p = (char*)malloc(c + 1); memcpy(p, last[i].data() + at, c);
				at += c; total += c; parts++;
				bool fin = at == n && vf_u8("last") % 4 != 0;
				if(fin) *seq = next(*seq);
				if(parts > 6 && at == n && !fin) { fin = true; *seq = next(*seq); }
				encode(p, c, fin);
				free(p);
				if(fin) break;
			} while(true);
		}
	}
};
struct Wire : public ProtocolLayer {
	std::string cur; std::deque<std::string> frames; size_t mtu_;
	Wire() : mtu_() {}
	virtual size_t mtu() const override { return mtu_; }
	virtual void encode(void const* b, size_t n, bool last) override { cur.append((char const*)b, n); if(last) { frames.push_back(cur); cur.clear(); } }
	using ProtocolLayer::encode;
};
static void deliver(L& l, std::string const& f)
{
	char* p = (char*)malloc(f.size() ? f.size() : 1);
	memcpy(p, f.data(), f.size());
	l.decode(p, f.size());
	free(p);
}
static uint32_t somewhere(char const* what)
{
	uint32_t s = vf_u32(what);
	switch(s & 7) { case 0: return 0x7fffff0 + (s >> 8) % 16; case 1: return 0x3d + (s >> 8) % 6; case 2: return 0x1ffd + (s >> 8) % 6; case 3: return 0xffffd + (s >> 8) % 6; case 4: return 1 + (s >> 8) % 6; default: return 1 + (s >> 4) % 0x7fffff0; }
}
VC(darq_history)
{
	static size_t const maxs[] = {0, 1, 4, 8, 20, 40, 300, 10000};
	App app; Wire w; L l(maxs[vf_u8("buffer") % 8]);
	app.max = l.m_maxEncodeBuffer;
	l.setUp(&app); l.setDown(&w); app.setDown(&l); w.setUp(&l);
	uint32_t mine = 1, expect = 1, srv = 1; // next request, next response, next response at the target
	app.seq = &srv;
	if(vf_bool("far")) { l.m_decodeSeq = mine = somewhere("request seq"); l.m_encodeSeq = srv = expect = somewhere("response seq"); l.m_encodeSeqReset = vf_bool("reset pending"); }
	int loss = vf_u8("loss rate") % 4;
	for(int r = 0; r < 8 && vf_more("request"); r++) {
		if(vf_u8("reset") % 6 == 0) {
			uint32_t s = somewhere("reset to");
			bool acked = false;
			vf_note("reset");
			for(int t = 0; !acked; t++) {
				std::string f = enc(s); f[0] = (char)(f[0] | 0x80);
				if(t < 5 && loss && vf_u8("lost") % 6 < loss) continue;
				deliver(l, f);
				vf_assert(w.frames.size() == 1 && w.frames[0] == std::string(1, (char)0x80), "a reset is acknowledged");
				w.frames.clear();
				srv = 1;
				if(t < 5 && loss && vf_u8("lost") % 6 < loss) continue;
				acked = true;
			}
			mine = next(s); expect = 1;
		}
		std::vector<std::string> req; size_t n = vf_u8("chunks") % 4 + 1;
		for(size_t i = 0; i < n; i++) { std::string c; c += (char)(i + 1 == n); c += (char)i; c.append(vf_u8("size") % 5, (char)r); req.push_back(c); }
		app.resp.clear();
		size_t m = vf_u8("response chunks") % 4 + 1;
		for(size_t i = 0; i < m; i++) { std::string c; c += (char)(i + 1 == m); c += (char)r; c.append(vf_u8("size") % 12, (char)('a' + i)); app.resp.push_back(c); }
		app.purge = vf_u8("purgeable") % 3 == 0;
		app.execs = 0; app.over = false;
		std::vector<std::string> got; bool done = false; bool everover = false;
		vf_note("request");
		for(int t = 0; t < 12 && !done; t++) {
			int rate = t < 8 ? loss : 0; // in the end, it gets through
			uint32_t s = mine;
			for(size_t i = 0; i < n; i++, s = next(s)) {
				if(rate && vf_u8("lost") % 6 < rate) { vf_note("lost request"); continue; }
				deliver(l, enc(s) + req[i]);
				if(!app.max && !app.purge && n == 1 && vf_u8("repeated") % 8 == 0) deliver(l, enc(s) + req[i]);
			}
			everover = everover || app.over;
			vf_assert(w.cur.empty(), "messages are sent completely");
			while(!w.frames.empty()) {
				std::string f = w.frames.front(); w.frames.pop_front();
				if(rate && vf_u8("lost") % 6 < rate) { vf_note("lost response"); continue; }
				uint32_t q; bool reset; size_t k = dec(f, q, reset);
				vf_assert(k > 0 && enc(q).size() == k, "sequence number of a response");
				if(reset) { got.clear(); expect = q; done = false; }
				if(q != expect || done) continue;
				got.push_back(f.substr(k)); expect = next(expect);
				if(got.back()[0] & 1) done = true;
			}
		}
		vf_assert(done, "a request is answered as soon as it gets through");
		vf_assert(app.req == req, "exactly the request has been received");
		vf_assert(got == app.last, "the complete response is received, in order");
		vf_assert(app.execs == 1 || everover, "a request is only executed again when its response may be purged");
		mine = next(mine); for(size_t i = 1; i < n; i++) mine = next(mine);
		vf_assert(l.m_decodeSeq == mine && l.m_encodeSeq == srv, "the next sequence numbers");
	}
	vf_cover("history");
}
// any frames
VC(darq_any)
{
	App app; Wire w; L l(vf_u8("buffer") % 3 * 10);
	app.strict = false; app.max = l.m_maxEncodeBuffer;
	l.setUp(&app); l.setDown(&w); app.setDown(&l); w.setUp(&l);
	uint32_t srv = 1; app.seq = &srv;
	if(vf_bool("far")) { l.m_decodeSeq = somewhere("request seq"); l.m_encodeSeq = srv = somewhere("response seq"); }
	for(int i = 0; i < 30 && vf_more("frame"); i++) {
		app.resp.clear();
		size_t m = vf_u8("response chunks") % 4;
		for(size_t k = 0; k < m; k++) app.resp.push_back(std::string(vf_u8("size") % 12, 'a'));
		app.purge = vf_bool("purge");
		app.execs = 0;
		std::string f;
		uint32_t q0 = l.m_decodeSeq, st = l.m_decodeState;
		if(vf_bool("valid")) { f = enc(vf_bool("next") ? l.m_decodeSeq : vf_bool("same") ? l.m_decodeSeqStart : somewhere("seq")); if(vf_u8("reset") % 8 == 0) f[0] = (char)(f[0] | 0x80); }
		else { size_t n = vf_u8("len") % 8; for(size_t k = 0; k < n; k++) f += (char)vf_u8("byte"); }
		if(vf_bool("data")) { f += (char)vf_u8("data"); }
		w.frames.clear();
		deliver(l, f);
		uint32_t q; bool reset; size_t k = dec(f, q, reset);
		(void)st;
		if(!k && !reset) vf_assert(app.execs == 0 && l.m_decodeSeq == q0, "a truncated frame is ignored");
		vf_assert(l.m_decodeSeq >= 1 && l.m_decodeSeq <= 0x7ffffff && l.m_encodeSeq >= 1 && l.m_encodeSeq <= 0x7ffffff, "sequence numbers within their range");
	}
	vf_cover("any");
}
#endif
