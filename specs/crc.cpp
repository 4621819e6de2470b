// C04: Crc8Layer, Crc16Layer
#include "vf.h"
#include "pre.h"
#include "/repo/src/protocol.cpp"
using namespace stored;

// ---- reference: bit-serial CRC, MSB first, no reflection, no final xor
static inline uint8_t ref8(uint8_t crc, uint8_t b)
{
	uint8_t r = (uint8_t)(crc ^ b);
	for(int i = 0; i < 8; i++) r = (uint8_t)((uint8_t)(r << 1) ^ (uint8_t)((uint8_t)-(r >> 7) & 0xa6));
	return r;
}
static inline uint16_t ref16(uint16_t crc, uint8_t b)
{
	uint16_t r = (uint16_t)(crc ^ (uint16_t)(b << 8));
	for(int i = 0; i < 8; i++) r = (uint16_t)((uint16_t)(r << 1) ^ (uint16_t)((uint16_t)-(r >> 15) & 0xbaad));
	return r;
}

static uint8_t const* g_in;
static size_t g_n;
static u64 g_c0;

#ifdef VF_PROVE
static inline u64 C8(u64 i) { return vf_app1("C8", i); }
static inline u64 C16(u64 i) { return vf_app1("C16", i); }
#else
static u64 C8(u64 n) { uint8_t c = (uint8_t)g_c0; for(u64 i = 0; i < n; i++) c = ref8(c, g_in[i]); return c; }
static u64 C16(u64 n) { uint16_t c = (uint16_t)g_c0; for(u64 i = 0; i < n; i++) c = ref16(c, g_in[i]); return c; }
#endif
#ifdef VF_PROVE
SPEC bool ax_C8(u64 i)
{
	if(i == 0 && C8(0) != g_c0) return false;
	return i >= g_n || C8(i + 1) == Crc8Layer::compute(g_in[i], (uint8_t)C8(i));
}
SPEC bool ax_C16(u64 i)
{
	if(i == 0 && C16(0) != g_c0) return false;
	return i >= g_n || C16(i + 1) == Crc16Layer::compute(g_in[i], (uint16_t)C16(i));
}

// ---- table == polynomial, for every register value and byte (contract of compute())
PVC(crc8_step)
{
	uint8_t b = vf_u8("byte"), c = vf_u8("crc");
	vf_assert(Crc8Layer::compute(b, c) == ref8(c, b), "CRC-8 step is division by the polynomial 0xa6");
	vf_assert(Crc8Layer::compute(c, b) == ref8(c, b), "CRC-8 step is symmetric");
	vf_cover("crc8 step");
}
PVC(crc16_step)
{
	uint8_t b = vf_u8("byte"); uint16_t c = vf_u16("crc");
	vf_assert(Crc16Layer::compute(b, c) == ref16(c, b), "CRC-16 step is division by the polynomial 0xbaad");
	vf_cover("crc16 step");
}
#endif
// ---- the register never forgets a difference, and a short burst always makes one
// (the low coefficient of the CRC-8 polynomial is 0: a step is even, and forgets exactly the difference 0xd3, which is odd)
VC(crc8_burst)
{
	uint8_t c = vf_u8("crc"), c2 = vf_u8("crc2"), x = vf_u8("x"), y = vf_u8("y");
	vf_assert(((ref8(c, x) ^ ref8(c2, y)) & 1) == 0, "differences between registers after a step are even");
	if(c != c2 && ((c ^ c2) & 1) == 0) vf_assert(ref8(c, x) != ref8(c2, x), "different registers stay different");
	uint8_t e = vf_u8("e"); unsigned sh = vf_choice(8, "shift");
	vf_assume(e != 0 && (e & 1) == 0); // a burst of at most 7 bits, starting anywhere in the first byte
	uint16_t b = (uint16_t)(((uint16_t)e << 8) >> sh);
	uint8_t d1 = (uint8_t)(b >> 8), d2 = (uint8_t)b;
	vf_assert(ref8(ref8(c, x), y) != ref8(ref8(c, (uint8_t)(x ^ d1)), (uint8_t)(y ^ d2)), "a burst of up to 7 bits changes the register");
	// burst that reaches into the trailer
	vf_assert((uint8_t)(ref8(c, x) ^ y) != (uint8_t)(ref8(c, (uint8_t)(x ^ d1)) ^ y ^ d2), "a burst over the trailer is seen");
	vf_cover("crc8 burst");
}
VC(crc16_burst)
{
	uint16_t c = vf_u16("crc"), c2 = vf_u16("crc2"); uint8_t x = vf_u8("x"), y = vf_u8("y"), z = vf_u8("z");
	if(c != c2) vf_assert(ref16(c, x) != ref16(c2, x), "different registers stay different");
	uint16_t e = vf_u16("e"); unsigned sh = vf_choice(8, "shift");
	vf_assume(e != 0);
	uint32_t b = ((uint32_t)e << 8) >> sh;
	uint8_t d1 = (uint8_t)(b >> 16), d2 = (uint8_t)(b >> 8), d3 = (uint8_t)b;
	vf_assert(ref16(ref16(ref16(c, x), y), z) != ref16(ref16(ref16(c, (uint8_t)(x ^ d1)), (uint8_t)(y ^ d2)), (uint8_t)(z ^ d3)), "a burst of up to 16 bits changes the register");
	// burst that reaches into the trailer (2 bytes): x y | t1   and   x | t1 t2
	uint16_t a = ref16(ref16(c, x), y), a2 = ref16(ref16(c, (uint8_t)(x ^ d1)), (uint8_t)(y ^ d2));
	vf_assert(a != (uint16_t)(a2 ^ (uint16_t)(d3 << 8)), "a burst over the first trailer byte is seen");
	a = ref16(c, x); a2 = ref16(c, (uint8_t)(x ^ d1));
	vf_assert(a != (uint16_t)(a2 ^ (uint16_t)((d2 << 8) | d3)), "a burst over the trailer is seen");
	vf_cover("crc16 burst");
}

// ---- encode: message bytes pass unchanged, then the CRC of everything since the previous last chunk
struct Down : public ProtocolLayer {
	size_t calls; uint8_t const* buf; size_t len; bool last0; uint8_t trailer[2]; size_t tlen; bool last1; size_t m;
	Down() : calls(), buf(), len(), last0(), tlen(), last1(), m() {}
	virtual void encode(void const* b, size_t n, bool last) override
	{
		calls++;
		if(calls == 1) { buf = (uint8_t const*)b; len = n; last0 = last; }
		else { tlen = n; last1 = last; vf_assert(n == 1 || n == 2, "trailer size"); trailer[0] = ((uint8_t const*)b)[0]; if(n == 2) trailer[1] = ((uint8_t const*)b)[1]; }
	}
	using ProtocolLayer::encode;
	virtual size_t mtu() const override { return m; }
};

#ifdef VF_PROVE
template <typename L, int S> static void enc_proof()
{
	g_n = vf_size("len");
	uint8_t* buf = (uint8_t*)vf_alloc(g_n, "msg"); g_in = buf;
	bool last = vf_bool("last");
	Down d; L l; l.setDown(&d);
	g_c0 = S == 1 ? vf_u8("crc0") : vf_u16("crc0");
	l.m_crc = (decltype(l.m_crc))g_c0;
	if(S == 1) vf_specfn_("C8", ax_C8, 1); else vf_specfn_("C16", ax_C16, 1);
	if(S == 1) C8(0); else C16(0);
	l.encode(buf, g_n, last);
	u64 c = S == 1 ? C8(g_n) : C16(g_n);
	vf_assert(d.buf == buf && d.len == g_n && !d.last0, "the message bytes pass unchanged");
	if(last) {
		vf_assert(d.calls == 2 && d.tlen == S && d.last1, "one trailer ends the frame");
		vf_assert((S == 1 ? d.trailer[0] : (u64)(d.trailer[0] << 8 | d.trailer[1])) == c, "the trailer is the CRC of the message");
		vf_assert(l.m_crc == (S == 1 ? 0xff : 0xffff), "the next frame starts afresh");
	} else {
		vf_assert(d.calls == 1, "no trailer before the end");
		vf_assert(l.m_crc == c, "the CRC continues over partial encodes");
	}
	l.reset();
	vf_assert(l.m_crc == (S == 1 ? 0xff : 0xffff), "reset() starts a new frame");
	vf_cover("encode");
}
PVC(crc8_encode) { enc_proof<Crc8Layer, 1>(); }
PVC(crc16_encode) { enc_proof<Crc16Layer, 2>(); }
#endif

struct Up : public ProtocolLayer {
	size_t calls; void* buf; size_t len;
	Up() : calls(), buf(), len() {}
	virtual void decode(void* b, size_t n) override { calls++; buf = b; len = n; }
};
template <typename L, int S> static void dec_proof()
{
	size_t n = vf_size("len");
	uint8_t* buf = (uint8_t*)vf_alloc(n, "frame");
	g_in = buf; g_n = n < S ? 0 : n - S; g_c0 = S == 1 ? 0xff : 0xffff;
	Up u; L l; l.setUp(&u);
#ifdef VF_PROVE
	if(S == 1) vf_specfn_("C8", ax_C8, 1); else vf_specfn_("C16", ax_C16, 1);
#endif
	if(S == 1) C8(0); else C16(0);
	u64 c = S == 1 ? C8(g_n) : C16(g_n);
	bool valid = n >= S && (S == 1 ? buf[n - 1] : (u64)(buf[n - 2] << 8 | buf[n - 1])) == c;
	l.decode(buf, n);
	vf_assert(u.calls == (valid ? 1 : 0), "delivered exactly when the trailer matches");
	if(valid) vf_assert(u.buf == buf && u.len == n - S, "exactly the message is delivered, without the trailer");
	if(valid) vf_cover("valid frame"); else vf_cover("invalid frame");
}
VC(crc8_decode) { dec_proof<Crc8Layer, 1>(); }
VC(crc16_decode) { dec_proof<Crc16Layer, 2>(); }

template <typename L, int S> static void mtu_proof()
{
	Down d; L l; l.setDown(&d); d.m = vf_size("mtu");
	size_t m = l.mtu();
	vf_assert(m >= 1 && m <= 256, "MTU within the range the CRC is good for");
	if(d.m > S) vf_assert(m + S <= d.m, "a frame with its trailer fits the MTU of the lower layer");
	vf_cover("mtu");
}
VC(crc8_mtu) { mtu_proof<Crc8Layer, 1>(); }
VC(crc16_mtu) { mtu_proof<Crc16Layer, 2>(); }

#ifndef VF_PROVE
// ---- native: whole histories of frames through an encoder and a decoder
struct Collect : public ProtocolLayer {
	std::string f; bool done; Collect() : done() {}
	virtual void encode(void const* b, size_t n, bool last) override { vf_assert(!done, "nothing after the end of the frame"); f.append((char const*)b, n); done = last; }
	using ProtocolLayer::encode;
};
struct Sink : public ProtocolLayer {
	size_t calls; std::string m; Sink() : calls() {}
	virtual void decode(void* b, size_t n) override { calls++; m.assign((char*)b, n); }
};
template <typename L, int S> static void history()
{
	Collect c; L e; e.setDown(&c);
	Sink s; L d; d.setUp(&s);
	int frames = 0;
	while(vf_more("frame") && frames++ < 6) {
		c.f.clear(); c.done = false;
		if(vf_u8("reset") < 20) { size_t k = vf_size("junk") % 8; uint8_t* p = (uint8_t*)vf_alloc(k, "junk"); e.encode(p, k, false); e.reset(); c.f.clear(); }
		std::string msg;
		bool last = false;
		for(int i = 0; !last && i < 6; i++) {
			size_t k = vf_size("chunk"); uint8_t* p = (uint8_t*)vf_alloc(k, "chunk");
			last = vf_bool("last") || i == 5;
			msg.append((char*)p, k);
			e.encode(p, k, last);
		}
		vf_assert(c.done, "frame ends");
		vf_assert(c.f.size() == msg.size() + S && c.f.compare(0, msg.size(), msg) == 0, "frame is message and trailer");
		uint16_t r16 = 0xffff; uint8_t r8 = 0xff;
		for(char ch : msg) { r8 = ref8(r8, (uint8_t)ch); r16 = ref16(r16, (uint8_t)ch); }
		if(S == 1) vf_assert((uint8_t)c.f[msg.size()] == r8, "trailer");
		else vf_assert((uint8_t)c.f[msg.size()] == (r16 >> 8) && (uint8_t)c.f[msg.size() + 1] == (r16 & 0xff), "trailer");
		std::string f = c.f;
		s.calls = 0; d.decode(&f[0], f.size());
		vf_assert(s.calls == 1 && s.m == msg, "an intact frame is delivered as sent");
		// a burst of up to 8*S bits
		f = c.f;
		uint32_t burst = S == 1 ? vf_u8("burst") & 0x7f : vf_u16("burst");
		size_t bit = vf_u16("bit") % (f.size() * 8);
		bool any = false;
		for(int i = 0; i < 8 * S; i++) if((burst >> i & 1) && bit + (size_t)i < f.size() * 8) { f[(bit + (size_t)i) / 8] ^= (char)(0x80 >> ((bit + (size_t)i) % 8)); any = true; }
		s.calls = 0; d.decode(&f[0], f.size());
		if(any) vf_assert(s.calls == 0, "a damaged frame is never delivered");
		vf_cover("frame");
	}
}
NVC(crc8_history) { history<Crc8Layer, 1>(); }
NVC(crc16_history) { history<Crc16Layer, 2>(); }
#endif
