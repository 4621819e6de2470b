// C17: CompressLayer: all of a message goes through the codec, which is left clean (proved, given the contract of the
// heatshrink library); sequences of messages and any input (native, with the real library)
#include "vf.h"
#include <stored>
#include <libstored/compress.h>
#include <string.h>
#ifdef VF_PROVE
#	include "/repo/src/compress.cpp"
#else
#	include <string>
#	include <vector>
#endif
using namespace stored;
typedef CompressLayer L;

#ifdef VF_PROVE
// ---------------------------------------------------------------- contract of the heatshrink library, as documented in its headers
static char* g_obj;                  // the encoder or decoder
static uint8_t* g_buf; static u64 g_len; // input
static u64 g_sunk;                   // bytes that are passed to the codec
static bool g_must;                  // there is output; it must be polled until empty before sinking more
static bool g_done;                  // finished: all output is polled
static u64 g_resets, g_allocs;
static u64 g_outp, g_outn;           // output of the last poll, that is not passed on yet
static u64 g_total;                  // decoder: total output
static u64 g_vsize; static uint8_t* g_vec; // the decode buffer
static void sink(void* e, uint8_t* in, size_t size, size_t* n)
{
	vf_assert((char*)e == g_obj, "the codec");
	vf_assert(!g_must & !g_done & (g_outn == 0), "all output is processed first");
	vf_assert(in == g_buf + g_sunk && size <= g_len - g_sunk && g_sunk <= g_len && size > 0, "the input, in order, once");
	u64 k = vf_u64("sunk"); vf_assume((k > 0) & (k <= size));
	g_sunk += k; g_must = true; *n = k;
}
static u64 poll(void* e, size_t size, size_t* n)
{
	vf_assert((char*)e == g_obj, "the codec");
	vf_assert((g_outn == 0) & (size > 0), "previous output is processed");
	u64 k = vf_u64("polled"); vf_assume(k <= size);
	*n = k;
	return k;
}
static bool finish(void* e)
{
	vf_assert((char*)e == g_obj, "the codec");
	vf_assert((g_sunk == g_len) & !g_must & (g_outn == 0), "finish after all input and output");
	if(g_done) return false;
	bool more = vf_bool("more");
	if(more) g_must = true; else g_done = true;
	return more;
}
static void reset(void* e)
{
	vf_assert(((char*)e == g_obj) & (g_outn == 0), "the codec");
	vf_assert(g_done | ((g_vec != nullptr) & (g_sunk == 0) & !g_must), "reset after the end");
	g_resets += g_done;
}
extern "C" {
heatshrink_encoder* vfc__heatshrink_encoder_alloc(uint8_t, uint8_t) { g_allocs++; return (heatshrink_encoder*)g_obj; }
void vfc__heatshrink_encoder_free(heatshrink_encoder*) {}
HSE_sink_res vfc__heatshrink_encoder_sink(heatshrink_encoder* e, uint8_t* in, size_t size, size_t* n) { sink(e, in, size, n); return HSER_SINK_OK; }
HSE_poll_res vfc__heatshrink_encoder_poll(heatshrink_encoder* e, uint8_t* out, size_t size, size_t* n)
{
	g_outn = poll(e, size, n); g_outp = (u64)out;
	if(vf_bool("more output")) return HSER_POLL_MORE;
	g_must = false; return HSER_POLL_EMPTY;
}
HSE_finish_res vfc__heatshrink_encoder_finish(heatshrink_encoder* e) { return finish(e) ? HSER_FINISH_MORE : HSER_FINISH_DONE; }
void vfc__heatshrink_encoder_reset(heatshrink_encoder* e) { reset(e); }
heatshrink_decoder* vfc__heatshrink_decoder_alloc(uint16_t, uint8_t, uint8_t) { g_allocs++; return (heatshrink_decoder*)g_obj; }
void vfc__heatshrink_decoder_free(heatshrink_decoder*) {}
HSD_sink_res vfc__heatshrink_decoder_sink(heatshrink_decoder* e, uint8_t* in, size_t size, size_t* n) { sink(e, in, size, n); return HSDR_SINK_OK; }
HSD_poll_res vfc__heatshrink_decoder_poll(heatshrink_decoder* e, uint8_t* out, size_t size, size_t* n)
{
	u64 k = poll(e, size, n);
	vf_assert(out == g_vec + g_total && size <= g_vsize - g_total && g_total <= g_vsize, "output follows the previous output, within the buffer");
	vf_assume(g_total + k < (1ul << 40));
	g_total += k;
	if(vf_bool("more output")) return HSDR_POLL_MORE;
	g_must = false; return HSDR_POLL_EMPTY;
}
HSD_finish_res vfc__heatshrink_decoder_finish(heatshrink_decoder* e) { return finish(e) ? HSDR_FINISH_MORE : HSDR_FINISH_DONE; }
void vfc__heatshrink_decoder_reset(heatshrink_decoder* e) { reset(e); }
// std::vector<uint8_t>
typedef std::vector<uint8_t> Vec;
void vfc___ZNSt6vectorIhSaIhEEC2Ev(Vec*) {}
void vfc___ZNSt6vectorIhSaIhEED2Ev(Vec*) {}
void vfc___ZNSt6vectorIhSaIhEE6resizeEm(Vec*, size_t n) { vf_assert((n >= g_total) | g_done, "output is kept"); g_vsize = n; }
size_t vfc___ZNKSt6vectorIhSaIhEE4sizeEv(Vec const*) { return g_vsize; }
uint8_t* vfc___ZNSt6vectorIhSaIhEE4dataEv(Vec*) { return g_vec; }
uint8_t* vfc___ZNSt6vectorIhSaIhEEixEm(Vec*, size_t i) { vf_assert(i < g_vsize, "an element of the vector"); return g_vec + i; }
}
static u64 g_ends, g_ups;
struct Down : public ProtocolLayer {
	virtual void encode(void const* buffer, size_t len, bool last) override
	{
		vf_assert(g_ends == 0, "nothing follows the end of the message");
		vf_assert((((u64)buffer == g_outp) | (len == 0)) & (len == g_outn), "all output, in order"); g_outn = 0;
		if(last) { vf_assert(g_done, "the message ends after all output"); g_ends++; }
	}
	virtual size_t mtu() const override { return 0; }
	using ProtocolLayer::encode;
};
struct Up : public ProtocolLayer {
	virtual void decode(void* buffer, size_t len) override
	{
		vf_assert(g_ups++ == 0, "one message");
		vf_assert(buffer == g_vec && len == g_total && len <= g_vsize && g_done && g_sunk == g_len, "all output");
	}
	using ProtocolLayer::encode;
};
SPEC bool inv_poll() { return (g_outn == 0) & (g_ends == 0) & (g_resets == 0) & !g_done & (g_sunk <= g_len); }
SPEC bool inv_must() { return !g_must; }
SPEC bool inv_left(u64 len) { return len + g_sunk == g_len; }
SPEC bool inv_at(u64 at) { return at == g_sunk; }
static L* g_l;
SPEC bool inv_total() { return (g_l->m_decodeBufferSize == g_total) & (g_total < (1ul << 40)) & (g_ups == 0); }
static void start(L& l)
{
	vf_closed_("_ZNSt6vectorIh"); vf_closed_("_ZNKSt6vectorIh");
	g_l = &l;
	g_obj = (char*)vf_alloc(8, "codec");
	g_len = vf_size("len"); vf_assume(g_len < (1ul << 40)); g_buf = (uint8_t*)vf_alloc(g_len, "message");
	g_sunk = g_resets = g_allocs = g_outp = g_outn = g_total = g_ends = g_ups = 0; g_must = g_done = false;
	l.m_state = vf_u8("state") & 3;
	vf_invariant_(inv_poll); vf_invariant_(inv_must); vf_invariant_at_(inv_left); vf_invariant_at_(inv_at); vf_invariant_(inv_total);
}
PVC(cmp_encode)
{
	L& l = *new L; Down& d = *new Down; l.setDown(&d); start(l);
	bool have = vf_bool("have encoder"), last = vf_bool("last"); uint8_t state = l.m_state;
	if(have) l.m_encoder = g_obj;
	l.encode(g_buf, g_len, last);
	vf_assert(g_allocs == (have ? 0 : 1) && l.m_encoder == g_obj, "one encoder");
	vf_assert((g_sunk == g_len) & !g_must & (g_outn == 0), "all input is encoded, all output is passed on");
	vf_assert((g_ends == last) & (g_done == last) & (g_resets == last), "the end is signalled once, and the encoder is ready for the next message");
	vf_assert(l.m_state == (uint8_t)(last ? state & ~L::FlagEncoding : state | L::FlagEncoding), "whether a message is being encoded");
	vf_cover("encode");
}
PVC(cmp_decode)
{
	L& l = *new L; Up& u = *new Up; l.setUp(&u); start(l);
	bool have = vf_bool("have decoder"); uint8_t state = l.m_state;
	if(have) l.m_decoder = g_obj;
	g_vec = (uint8_t*)vf_alloc(vf_size("capacity"), "vector"); g_vsize = vf_size("size"); l.m_decodeBufferSize = vf_size("old size");
	l.decode(g_buf, g_len);
	bool any = g_len > 0;
	vf_assert((g_sunk == g_len) & !g_must, "all input is decoded, all output is collected");
	vf_assert((g_ups == any) & (g_done == any) & (g_resets == any), "one message is passed, and the decoder is ready for the next one");
	vf_assert(l.m_state == (uint8_t)(any ? state & ~L::FlagDecoding : state), "no message is being decoded");
	if(any) vf_cover("decode");
}
#else

struct Low : public ProtocolLayer {
	std::string cur; std::vector<std::string> frames; size_t ends;
	Low() : ends() {}
	virtual void encode(void const* b, size_t n, bool last) override { if(n) cur.append((char const*)b, n); if(last) { frames.push_back(cur); cur.clear(); ends++; } }
	using ProtocolLayer::encode;
	void get(std::string const& f) { char* p = (char*)malloc(f.size() ? f.size() : 1); memcpy(p, f.data(), f.size()); decode(p, f.size()); free(p); }
};
struct Top : public ProtocolLayer {
	std::vector<std::string> got;
	virtual void decode(void* b, size_t n) override { got.push_back(std::string((char*)b, n)); }
	using ProtocolLayer::encode;
};
static std::string message()
{
	std::string s;
	for(int i = 0; i < 8 && vf_more("part"); i++)
		switch(vf_u8("kind") % 4) {
		case 0: for(int n = vf_u8("len") % 40; n > 0; n--) s += (char)vf_u8("byte"); break;
		case 1: s.append(vf_u8("run"), (char)vf_u8("byte")); break;
		case 2: { uint32_t x = vf_u8("random"); for(int n = vf_u8("len"); n > 0; n--) { x = x * 1103515245u + 12345u; s += (char)(x >> 16); } break; }
		default: { size_t n = vf_u8("repeat"), b = vf_u8("back"); for(size_t k = 0; k < n && b && b <= s.size(); k++) s += s[s.size() - b]; }
		}
	return s;
}
VC(cmp_history)
{
	Top top, snd; CompressLayer e, d; Low le, ld;
	e.setUp(&snd); snd.setDown(&e); e.setDown(&le); le.setUp(&e);
	d.setUp(&top); top.setDown(&d); d.setDown(&ld); ld.setUp(&d);
	size_t sent = 0;
	for(int i = 0; i < 12 && vf_more("message"); i++) {
		std::string m = message();
		size_t at = 0; bool open = true;
		for(int k = vf_u8("splits") % 4; k > 0; k--) {
			size_t n = vf_u8("split"); if(n > m.size() - at) n = m.size() - at;
			char* p = (char*)malloc(n ? n : 1); memcpy(p, m.data() + at, n);
			if(k == 1 && n == m.size() - at) { snd.encode(p, n, true); open = false; } else snd.encode(p, n, false);
			free(p); at += n;
			if(!open) break;
			vf_assert(le.frames.size() == sent, "the end of the message is not signalled early");
		}
		if(open) snd.encode(m.data() + at, m.size() - at, true);
		sent++;
		vf_assert(le.frames.size() == sent && le.cur.empty(), "the end of the message is signalled once");
		vf_assert(e.idle(), "nothing is left of the message");
		ld.get(le.frames.back());
		if(m.empty()) {
			vf_note("empty");
			vf_assert(top.got.empty() || (top.got.size() == 1 && top.got[0].empty()), "an empty message is not changed");
		} else
			vf_assert(top.got.size() == 1 && top.got[0] == m, "the message arrives unmodified");
		vf_assert(d.idle() && ld.frames.empty() && ld.cur.empty(), "nothing is left of the message");
		top.got.clear();
	}
	vf_cover("history");
}
VC(cmp_any)
{
	Top top; CompressLayer d; Low ld;
	d.setUp(&top); top.setDown(&d); d.setDown(&ld); ld.setUp(&d);
	for(int i = 0; i < 6 && vf_more("frame"); i++) {
		std::string f;
		for(int n = vf_u8("len"); n > 0 && vf_more("byte"); n--) f += (char)vf_u8("byte");
		size_t before = top.got.size();
		ld.get(f);
		vf_assert(top.got.size() <= before + 1, "a frame gives at most one message");
	}
	vf_cover("any");
}
#endif
