// C05: ArqLayer
#include "vf.h"
#include <stored>
#ifdef VF_PROVE
#	include "/repo/src/protocol.cpp"
#else
#	include <deque>
#	include <string>
#	include <vector>
#endif
using namespace stored;
typedef ArqLayer L;

#ifdef VF_PROVE
// ---------------------------------------------------------------- any state of the layer
// contracts of std::deque<std::string*> and std::string: the strings are opaque, number i is at g_strs + 32 * i with
// first byte g_first[i] and size g_size[i]; the queue has numbers g_lo to g_hi; there is one iterator, at g_it
typedef std::string S; typedef std::deque<S*> Q;
struct X;
static X* g_l;
static char* g_strs; static char* g_data; static uint8_t* g_first; static u64* g_size;
static u64 g_lo, g_hi, g_n, g_it, g_spare;
static S* g_slot[3];
static u64 at(S const* s) { u64 o = (u64)s - (u64)g_strs; return o / 32; }
static bool isq(Q const* q);
static int g_freed; static u64 g_inj, g_injlo, g_injn;
#define DQ(name) vfc___ZNSt5dequeIPNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS6_EE##name
#define CDQ(name) vfc___ZNKSt5dequeIPNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS6_EE##name
#define STR(name) vfc___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE##name
#define CSTR(name) vfc___ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE##name
#define SEQ(i) vf_app1("SEQ", i) // sequence number of message i after a reset
static uint8_t next(uint8_t s) { uint8_t n = (s + 1) & 0x3f; return n + (n == 0); }
SPEC bool ax_SEQ(u64 i) { return (SEQ(i) < 64) & ((i == 0) | (SEQ(i) != 0)) & (SEQ(i + 1) == next(SEQ(i))); }
static void seqs(u64 i) { if(g_inj) vf_assume(ax_SEQ(i - g_injlo)); }
static bool g_init; // during construction
extern "C" {
void DQ(C2Ev)(Q*) {}
void DQ(D2Ev)(Q*) {}
bool CDQ(5emptyEv)(Q const* q) { return isq(q) ? g_lo == g_hi : g_spare == 0; }
size_t CDQ(4sizeEv)(Q const* q) { vf_assert(isq(q), "the queue"); return g_hi - g_lo; }
S** DQ(5frontEv)(Q* q) { vf_assert(isq(q) & (g_lo != g_hi), "the first message"); seqs(g_lo); g_slot[0] = (S*)(g_strs + 32 * g_lo); return &g_slot[0]; }
S** CDQ(5frontEv)(Q const* q) { vf_assert(isq(q) & (g_lo != g_hi), "the first message"); seqs(g_lo); g_slot[0] = (S*)(g_strs + 32 * g_lo); return &g_slot[0]; }
S** DQ(4backEv)(Q* q) { vf_assert(isq(q) & (g_lo != g_hi), "the last message"); g_slot[1] = (S*)(g_strs + 32 * (g_hi - 1)); return &g_slot[1]; }
void DQ(9pop_frontEv)(Q* q) { vf_assert(isq(q) & (g_lo != g_hi), "the first message"); g_lo++; }
S** DQ(12emplace_backIJRS6_EEESA_DpOT_)(Q* q, S** s) { vf_assert(!isq(q) & (*s == (S*)(g_strs + 32 * g_lo)) & (g_size[g_lo] == 0), "only an empty string that is popped becomes spare"); g_freed++; return s; }
S* vfc___ZN6stored8ArqLayer18pushEncodeQueueRawB5cxx11Eb(ArqLayer*, bool back)
{
	u64 i;
	if(back) { i = g_hi; g_hi++; } else { g_lo--; i = g_lo; g_injn++; g_inj = 1; g_injlo = i; }
	g_size[i] = 0;
	return (S*)(g_strs + 32 * i);
}
typedef std::_Deque_iterator<S*, S*&, S**> It;
It DQ(5beginEv)(Q* q) { vf_assert(isq(q), "the queue"); g_it = g_lo; return It(); }
It DQ(3endEv)(Q* q) { vf_assert(isq(q), "the queue"); return It(); }
It* vfc___ZNSt15_Deque_iteratorIPNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERS6_PS6_EppEv(It* i) { vf_assert(g_it < g_hi, "an element of the queue"); seqs(g_it); g_it++; return i; }
S** vfc___ZNKSt15_Deque_iteratorIPNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERS6_PS6_EdeEv(It const*) { vf_assert(g_it < g_hi, "an element of the queue"); g_slot[2] = (S*)(g_strs + 32 * g_it); return &g_slot[2]; }
bool vfc___ZStneRKSt15_Deque_iteratorIPNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERS6_PS6_ESB_(It const*, It const*) { return g_it != g_hi; }
bool CSTR(5emptyEv)(S const* s) { return g_size[at(s)] == 0; }
size_t CSTR(4sizeEv)(S const* s) { return g_size[at(s)]; }
char* STR(4dataEv)(S* s) { return g_data + at(s); }
char const* CSTR(4dataEv)(S const* s) { return g_data + at(s); }
char* STR(ixEm)(S* s, size_t i) { vf_assert((i == 0) & (g_size[at(s)] > 0), "the first byte"); return (char*)&g_first[at(s)]; }
void STR(7reserveEm)(S*, size_t) {}
void STR(5clearEv)(S* s) { g_size[at(s)] = 0; }
void STR(9push_backEc)(S* s, char c) { u64 i = at(s); vf_assert(g_size[i] == 0, "one byte in an empty string"); g_first[i] = (uint8_t)c; g_size[i] = 1; }
static int g_aps; static char const* g_apd; static u64 g_apn, g_api;
S* STR(6appendEPKcm)(S* s, char const* d, size_t n) { u64 i = at(s); vf_assert(g_aps++ == 0 && g_size[i] > 0, "append once, after the number"); g_api = i; g_apd = d; g_apn = n; g_size[i] += n; return s; }
}
struct Sent { u64 data, len; bool last; uint8_t b[2]; };
static u64 g_calls; static Sent g_s[3];
struct Down : public ProtocolLayer {
	virtual void encode(void const* buffer, size_t len, bool last) override
	{
		vf_assert(g_calls < 3, "not too much is sent");
		g_s[g_calls].data = (u64)buffer; g_s[g_calls].len = len; g_s[g_calls].last = last;
		g_calls++;
	}
	using ProtocolLayer::encode;
};
static u64 g_events[4];
struct X : public ArqLayer {
	X() : ArqLayer(0) {}
	virtual void event(Event e) override { g_events[(int)e & 3]++; }
};
static bool isq(Q const* q) { return g_init | (q == &g_l->m_encodeQueue); }
static void arrays(u64 n)
{
	g_strs = (char*)vf_alloc(32 * (n + 4), "strings"); g_data = (char*)vf_alloc(n + 4, "data");
	g_first = (uint8_t*)vf_alloc(n + 4, "first"); g_size = (u64*)vf_alloc(8 * (n + 4), "size");
	g_lo = 1; g_hi = 1 + n;
	g_slot[0] = g_slot[1] = g_slot[2] = (S*)g_strs;
}
static bool before() { g_init = true; g_spare = 0; arrays(0); return true; }
//! any state of the layer in between calls
static void state(X& l, Down& d)
{
	vf_assert((g_hi == 2) & (g_first[1] == L::NopFlag) & (g_size[1] == 1) & (l.m_sendSeq == 1) & (l.m_recvSeq == 0) & (l.m_encodeQueueSize == 1) & (l.m_encodeState == L::EncodeStateIdle), "a new layer starts with a reset message");
	vf_closed_("_ZNSt5deque"); vf_closed_("_ZNKSt5deque"); vf_closed_("_ZNSt7__cxx1112basic_string"); vf_closed_("_ZNKSt7__cxx1112basic_string");
	g_l = &l; 
	g_init = false;
	g_n = vf_u64("messages"); vf_assume(g_n < (1ul << 40));
	arrays(g_n);
	vf_assume_forall_([](u64 i) -> bool { return (i < 1) | (i > g_n) | ((g_size[i] > 0) & (g_size[i] < (1ul << 40))); });
	if(g_n > 0) vf_assume((g_size[1] > 0) & (g_size[1] < (1ul << 40)) & (g_size[g_n] > 0) & (g_size[g_n] < (1ul << 40)));
	uint32_t es = vf_bool("encoding"); memcpy(&l.m_encodeState, &es, sizeof(l.m_encodeState));
	l.m_sendSeq = vf_u8("send seq"); l.m_recvSeq = vf_u8("recv seq"); vf_assume((l.m_sendSeq < 64) & (l.m_recvSeq < 64));
	l.m_pauseTransmit = vf_bool("pause"); l.m_didTransmit = vf_bool("did transmit"); l.m_retransmits = vf_u8("retransmits");
	l.m_maxEncodeBuffer = vf_size("limit"); l.m_encodeQueueSize = vf_size("queued");
	vf_assume((es == 0) | (g_n > 0));
	l.setDown(&d);
	g_calls = 0; g_aps = 0; g_freed = 0;
	for(int i = 0; i < 4; i++) g_events[i] = 0;
}
//! what transmit() does
static void transmits(u64 call, X& l, uint8_t r, bool did, bool pause)
{
	u64 n = g_hi - g_lo;
	bool ready = (n > 0) & ((n > 1) | (l.m_encodeState == L::EncodeStateIdle)), go = ready & !pause;
	uint8_t rr = r + (r < 255);
	vf_assert(g_calls == call + (go ? 1 : 0), "the first message is sent when it is complete");
	if(go) vf_assert(g_s[call].data == (u64)g_data + g_lo && g_s[call].len == g_size[g_lo] && g_s[call].last, "the first message that is not acknowledged is sent");
	vf_assert(l.m_didTransmit == (did | ready), "there was something to send");
	vf_assert(l.m_retransmits == (go ? rr : r), "transmissions are counted");
	vf_assert(g_events[L::EventRetransmit] == (go & (rr >= 10) ? 1 : 0), "many retransmissions are reported");
	vf_assert(l.m_pauseTransmit == pause, "the pause flag is left alone");
}
// ---------------------------------------------------------------- sending
PVC(arq_encode)
{
	Down d; before(); X& l = *new X; state(l, d);
	u64 hi = g_hi, total = l.m_encodeQueueSize, len = vf_size("len"); bool last = vf_bool("last"), idle = l.m_encodeState == L::EncodeStateIdle, pause = l.m_pauseTransmit, did = l.m_didTransmit;
	uint8_t seq = l.m_sendSeq, recv = l.m_recvSeq, r = l.m_retransmits;
	uint8_t* msg = (uint8_t*)vf_alloc(len, "message");
	u64 bsize = idle ? 0 : g_size[hi - 1], j = vf_u64("any message"), js = 0; uint8_t jf = 0;
	if(j < g_n + 4) { js = g_size[j]; jf = g_first[j]; }
	l.encode(msg, len, last);
	vf_assert((g_events[L::EventEncodeBufferOverflow] != 0) == ((l.m_maxEncodeBuffer > 0) & (l.m_maxEncodeBuffer < total + len + 1)), "too much data is reported");
	vf_assert((g_lo == 1) & (g_hi == hi + idle), "one message is added");
	u64 b = idle ? hi : hi - 1;
	vf_assert(((g_aps == 0) & (len == 0)) | ((g_aps == 1) & (g_apd == (char*)msg) & (g_apn == len) & (g_api == b)), "the data is added to it");
	vf_assert(g_size[b] == (idle ? len + 1 : bsize + len), "its length");
	if(idle) vf_assert(g_first[b] == seq, "it has the next sequence number");
	if((j < g_n + 4) & (j != b)) vf_assert((g_size[j] == js) & (g_first[j] == jf), "other messages are left alone");
	vf_assert(l.m_sendSeq == (idle ? next(seq) : seq), "the next sequence number");
	vf_assert((l.m_recvSeq == recv) & (l.m_encodeQueueSize == total + len + idle), "the size of the queue");
	vf_assert(l.m_encodeState == (last ? L::EncodeStateIdle : L::EncodeStateEncoding), "whether the message is complete");
	transmits(0, l, r, did, pause);
	vf_cover("encode");
}
PVC(arq_keepalive)
{
	Down d; before(); X& l = *new X; state(l, d);
	u64 n = g_n, total = l.m_encodeQueueSize; bool pause = l.m_pauseTransmit, did = l.m_didTransmit, idle = l.m_encodeState == L::EncodeStateIdle;
	uint8_t seq = l.m_sendSeq, r = l.m_retransmits;
	if(vf_bool("flush")) {
		l.flush();
		vf_assert((g_hi == 1 + n) & (l.m_sendSeq == seq) & (l.m_encodeQueueSize == total), "flush() adds nothing");
	} else {
		l.keepAlive();
		vf_assert((g_hi == 1 + n + (n == 0)) & (l.m_sendSeq == (n == 0 ? next(seq) : seq)) & (l.m_encodeQueueSize == total + (n == 0)), "an empty message is added when there is none");
		if(n == 0) vf_assert((g_size[1] == 1) & (g_first[1] == (seq | L::NopFlag)), "it will be ignored, but acknowledged");
	}
	vf_assert((g_lo == 1) & (g_aps == 0), "no message is removed");
	vf_assert((l.m_encodeState == L::EncodeStateIdle) == idle, "whether the last message is complete");
	transmits(0, l, r, did, pause);
	vf_cover("keep alive");
}
// ---------------------------------------------------------------- receiving
// T(i): what the first i bytes of a frame do, according to the protocol; Z(i): messages that were acknowledged when the send sequence was reset
static uint8_t* g_frame; static u64 g_fn, g_k, g_ttn; static bool g_enc; static uint8_t g_recv0, g_send0, g_retr0; static u64 g_size0;
static u64 g_conn, g_ups;
#define POPS(t) ((t) & 0xffffffffu)
#define RECV(t) (((t) >> 32) & 63)
#define NRESP(t) (((t) >> 38) & 3)
#define R0(t) (((t) >> 40) & 63)
#define R1(t) (((t) >> 46) & 63)
#define DOT(t) (((t) >> 52) & 1)
#define REC(t) (((t) >> 53) & 1)
#define DEC(t) (((t) >> 54) & 1)
#define INJ(t) (((t) >> 55) & 1)
#define FIN(t) (((t) >> 56) & 1)
#define RP(t) (((t) >> 57) & 1)
#define NEV(t) (((t) >> 58) & 3)
#define NCONN(t) (((t) >> 60) & 3)
#define T(i) vf_app1("T", i)
#define Z(i) vf_app1("Z", i)
#define F(i) vf_app1("F", i) // first byte of message i in the queue
#define QS(i) vf_app1("QS", i) // total size of message i and on
static u64 cnt(u64 t) { return g_n - POPS(t) + (INJ(t) & !RP(t)); }
static u64 front(u64 t, u64 i) { return INJ(t) & !RP(t) ? 0x40 : INJ(t) ? SEQ(1 + POPS(t) - Z(i)) : F(1 + POPS(t)); }
static bool doinj(u64 t, u64 i, u64 hdr) { return (hdr < 0x80) & ((hdr & 63) != RECV(t)) & ((hdr & 63) == 0) & !REC(t) & ((cnt(t) == 0) | (front(t, i) != 0x40)); }
static u64 step(u64 t, u64 i)
{
	u64 hdr = g_frame[i], seq = hdr & 63, r = RECV(t), c = cnt(t);
	u64 pops = POPS(t), n = NRESP(t), r0 = R0(t), r1 = R1(t), dot = DOT(t), rec = REC(t), dec = DEC(t), inj = INJ(t), fin = 0, rp = RP(t), nev = NEV(t), nconn = NCONN(t), nr = r, resp = 0, a = 0;
	bool ack = hdr >= 0x80, mine = inj & !rp;
	bool hit = ack & (c > 0) & !((c == 1) & g_enc) & (seq == (front(t, i) & 63));
	bool in = !ack & (seq == r), rst = !ack & !in & (seq == 0), again = !ack & !in & !rst & (next(seq) == r), drop = !ack & !in & !rst & !again;
	pops += hit & !mine; rp |= hit & mine; rec |= hit & (seq == 0); nconn += hit & (seq == 0);
	a = in | rst | again; resp = rst ? 0 : seq;
	nr = in ? next(r) : rst ? 1 : r;
	dec = in & (hdr < 0x40);
	nev += rst; inj |= doinj(t, i, hdr);
	dot |= hit | in | rst | drop;
	r0 = a & (n == 0) ? resp : r0; r1 = a & (n == 1) ? resp : r1; n += a;
	fin = dec | (n == 2) | drop | (again & ((hdr & 0x40) == 0));
	return pops | nr << 32 | n << 38 | r0 << 40 | r1 << 46 | dot << 52 | rec << 53 | dec << 54 | inj << 55 | fin << 56 | rp << 57 | nev << 58 | nconn << 60;
}
SPEC bool ax_T(u64 i) { return i < g_fn ? (T(i + 1) == step(T(i), i)) & (Z(i + 1) == (doinj(T(i), i, g_frame[i]) ? POPS(T(i)) : Z(i))) : true; }
static u64 where(u64 len) { return len ? g_fn - len : g_k < g_fn ? g_k + 1 : g_fn; }
SPEC bool inv_len(u64 len) { return (len <= g_fn) & ((len == 0) | (g_fn - len <= g_k)); }
SPEC bool inv_t1(u64 len) { u64 t = T(where(len)); return (g_l->m_recvSeq == RECV(t)) & (g_lo == 1 + POPS(t) - (INJ(t) & !RP(t))) & (g_lo <= g_hi) & (g_inj == INJ(t)); }
SPEC bool inv_t2(u64 len) { u64 i = where(len), t = T(i); return !INJ(t) | ((g_injlo == Z(i)) & (g_injlo <= POPS(t)) & (g_it == g_hi)); }
SPEC bool inv_t3(u64 len) { u64 t = T(where(len)); return (POPS(t) <= g_n) & (POPS(t) <= where(len)) & (RP(t) <= INJ(t)) & (NRESP(t) <= 2); }
SPEC bool inv_t4(u64 len) { u64 t = T(where(len)); return (g_events[L::EventReconnect] == NEV(t)) & (g_conn == NCONN(t)) & (NEV(t) <= NRESP(t)) & (NCONN(t) <= 1 + RP(t)) & ((NCONN(t) == 0) | (REC(t) & (POPS(t) + RP(t) > 0))); }
SPEC bool inv_t5(u64 len) { u64 t = T(where(len)); return g_l->m_retransmits == (POPS(t) + RP(t) > 0 ? 0 : g_retr0); }
SPEC bool inv_t6(u64 len) { u64 t = T(where(len)); return g_l->m_encodeQueueSize == QS(1 + POPS(t)) + (INJ(t) & !RP(t)); }
SPEC bool inv_t7(u64 len) { return (len == 0) | (!FIN(T(g_fn - len)) & (NRESP(T(g_fn - len)) < 2)); }
SPEC bool inv_send() { return !g_inj | (g_l->m_sendSeq == SEQ(g_it - g_injlo)); }
SPEC bool inv_send0() { return g_inj | (g_l->m_sendSeq == g_send0); }
SPEC bool inv_it() { return !g_inj | ((g_it > g_injlo) & (g_it <= g_hi)); }
SPEC bool inv_first(u64 j) { return (j > g_n) | (j < g_lo) | (g_first[j] == (!g_inj | (j < g_injlo) ? F(j) : j == g_injlo ? 0x40 : j < g_it ? (F(j) & 0x40) | SEQ(j - g_injlo) : F(j))); }
SPEC bool inv_sizes(u64 j) { return (j > g_n) | (j < g_lo) | (g_size[j] == (g_inj & (j == g_injlo) ? 1 : QS(j) - QS(j + 1))); }
SPEC bool inv_nresp(u64 n, u64 len) { return n == NRESP(T(where(len))); }
SPEC bool inv_dot(u64 b, u64 len) { return b == DOT(T(where(len))); }
SPEC bool inv_rec(u64 b, u64 len) { return b == REC(T(where(len))); }
SPEC bool inv_resp(u64 m, u64 len) { u64 t = T(where(len)); return ((NRESP(t) < 1) | ((m & 0xff) == (R0(t) | 0x80))) & ((NRESP(t) < 2) | (((m >> 8) & 0xff) == (R1(t) | 0x80))); }
struct Up : public ProtocolLayer {
	virtual void decode(void* buffer, size_t len) override
	{
		vf_assert(g_ups++ == 0 && buffer == g_frame + g_k + 1 && len == g_fn - g_k - 1, "the message is passed once");
		vf_assert(DEC(T(g_k + 1)), "the next message is passed, nothing else");
		vf_assert(g_l->m_pauseTransmit, "replies are queued");
		if(vf_bool("reply")) { u64 n = vf_u8("replies"); g_hi += n; g_l->m_didTransmit = vf_bool("sent something"); uint32_t es = vf_bool("encoding reply"); memcpy(&g_l->m_encodeState, &es, 4); vf_assume(g_hi > g_lo); g_ttn = n; }
	}
	virtual void connected() override { g_conn++; }
};
PVC(arq_decode)
{
	Down d; before(); X& l = *new X; state(l, d); Up up; l.setUp(&up);
	vf_specfn_("T", ax_T, 0); vf_specfn_("Z", nullptr, 0); vf_specfn_("F", nullptr, 0); vf_specfn_("SEQ", ax_SEQ, 0); vf_specfn_("QS", nullptr, 0);
	vf_assume_forall_([](u64 j) -> bool { return (j < 1) | (j > g_n) | ((g_first[j] == F(j)) & (F(j) < 0x80) & ((j == 1) | ((F(j) & 63) != 0))); });
	vf_assume_forall_([](u64 j) -> bool { return (j < 1) | (j > g_n) | ((g_size[j] == QS(j) - QS(j + 1)) & (QS(j) > QS(j + 1)) & (QS(j) < (1ul << 50))); });
	vf_assume(QS(g_n + 1) == 0);
	vf_assume(SEQ(1) == 1);
	g_fn = vf_size("len"); g_frame = (uint8_t*)vf_alloc(g_fn, "frame"); vf_assume(g_fn < 0x7fffffff);
	vf_assume(l.m_encodeQueueSize == QS(1)); g_size0 = l.m_encodeQueueSize;
	vf_assume(!l.m_pauseTransmit & (l.m_sendSeq != 0));
	g_enc = l.m_encodeState != L::EncodeStateIdle; g_recv0 = l.m_recvSeq; g_send0 = l.m_sendSeq; g_retr0 = l.m_retransmits;
	g_inj = g_injlo = g_conn = g_ups = g_it = g_ttn = 0;
	vf_assume(T(0) == (u64)g_recv0 << 32); vf_assume(Z(0) == 0);
	// the frame is handled up to and including byte g_k
	g_k = vf_size("header"); vf_assume(g_k <= g_fn);
	vf_assume_forall_([](u64 j) -> bool { return (j >= g_k) | !FIN(T(j + 1)); });
	vf_assume((g_k == g_fn) | FIN(T(g_k + 1)));
	bool did = l.m_didTransmit;
	vf_lean_(true);
	vf_invariant_at_(inv_len); vf_invariant_at_(inv_t1); vf_invariant_at_(inv_t2); vf_invariant_at_(inv_t3); vf_invariant_at_(inv_t4); vf_invariant_at_(inv_t5); vf_invariant_at_(inv_t6); vf_invariant_at_(inv_t7);
	vf_invariant_(inv_send); vf_invariant_(inv_send0); vf_invariant_(inv_it); vf_invariant_forall_(inv_first); vf_invariant_forall_(inv_sizes);
	vf_invariant_at2_(inv_nresp); vf_invariant_at2n_(inv_dot); vf_invariant_at2n_(inv_rec); vf_invariant_atm_(inv_resp);
	l.decode(g_frame, g_fn);
	u64 t = T(where(0)), n = NRESP(t);
	vf_assert(g_ups == DEC(t), "the upper layer gets a message when it is the next one");
	vf_assert(l.m_recvSeq == RECV(t), "the next message to receive");
	vf_assert(g_lo == 1 + POPS(t) - (INJ(t) & !RP(t)), "messages are dropped when they are acknowledged, and only then");
	vf_cover("decode");
}
PVC(arq_seq)
{
	uint8_t s = vf_u8("seq"); vf_assume(s < 64);
	vf_assert(L::nextSeq(s) == next(s) && L::nextSeq(s) != 0 && L::nextSeq(s) < 64, "the next sequence number");
	vf_cover("seq");
}
#endif

#ifndef VF_PROVE
// ---------------------------------------------------------------- histories of two peers and a channel
struct Wire : public ProtocolLayer {
	std::string cur; std::deque<std::string> frames; size_t mtu_; int longest;
	Wire() : mtu_(), longest() {}
	virtual size_t mtu() const override { return mtu_; }
	virtual void encode(void const* b, size_t n, bool last) override { cur.append((char const*)b, n); if(last) { frames.push_back(cur); cur.clear(); } }
	using ProtocolLayer::encode;
};
static int g_resets;
static bool g_stable; //!< connected, and nothing is left of the reset messages
struct Side : public ProtocolLayer {
	Wire w; L* l; Side* peer;
	std::vector<std::string> sent; size_t got; //!< messages of this side; how many of the peer were received
	bool open; int id;
	int replies;
	Side(int i) : l(), peer(), got(), open(), id(i), replies() {}
	~Side() { delete l; }
	void send(bool last_)
	{
		std::string s; size_t n = vf_u8("len") % 8;
		if(!open) { s += (char)('A' + id); s += (char)sent.size(); }
		s.append(n, (char)(0x40 + n * 23)); // any bytes, also flags
		if(!open) sent.push_back(s); else sent.back() += s;
		open = !last_;
		char* p = (char*)malloc(s.size() + 1); memcpy(p, s.data(), s.size());
		encode(p, s.size(), last_);
		free(p);
	}
	virtual void decode(void* b, size_t n) override
	{
		std::string s((char*)b, n);
		// while the connection is being set up, messages may be repeated
		if(!g_stable && (got >= peer->sent.size() || s != peer->sent[got])) for(size_t i = 0; i < got; i++) if(s == peer->sent[i]) { vf_note("duplicate after reset"); return; }
		vf_assert(got < peer->sent.size() && s == peer->sent[got], "messages arrive once, unmodified, in order");
		vf_note("received");
		got++;
		if(replies > 0) { replies--; vf_note("reply"); send(true); }
	}
};
static void deliver(Side& to, std::string const& f)
{
	char* p = (char*)malloc(f.size() ? f.size() : 1);
	memcpy(p, f.data(), f.size());
	to.l->decode(p, f.size());
	free(p);
}
static void setup(Side& a, Side& b)
{
	Side* x[2] = {&a, &b};
	for(int i = 0; i < 2; i++) {
		Side& s = *x[i];
		s.peer = x[1 - i];
		s.l = new L(0);
		s.l->setUp(&s); s.setDown(s.l); s.l->setDown(&s.w); s.w.setUp(s.l);
		s.l->setEventCallback([&s](L&, L::Event e) { if(e == L::EventReconnect) { vf_note("reconnect"); vf_assert(!g_stable, "a connection that works is not reset"); g_resets++; } });
		s.l->keepAlive();
	}
}
static void drain(Side* s, int loss)
{
	for(int t = 0; !s[0].w.frames.empty() || !s[1].w.frames.empty(); t++) {
		int k = s[0].w.frames.empty() ? 1 : s[1].w.frames.empty() ? 0 : vf_u8("direction") & 1;
		std::string f = s[k].w.frames.front(); s[k].w.frames.pop_front();
		if(loss && t < 1000 && vf_u8("lost") % 6 < loss) { vf_note("lost"); continue; }
		vf_note("deliver");
		deliver(s[1 - k], f);
		vf_assert(t < 100000, "the channel gets quiet");
	}
}
static bool done(Side* s) { return s[0].got == s[1].sent.size() && s[1].got == s[0].sent.size(); }
static void history(Side* s, int loss, int max)
{
	for(int i = 0; i < max && vf_more("op"); i++) {
		int k = vf_u8("side") & 1; Side& m = s[k];
		switch(vf_u8("what") % 16) {
		case 0: case 1: case 2: vf_note("send"); m.send(vf_u8("last") % 4 != 0); break;
		case 3: vf_note("flush"); m.l->flush(); break;
		case 4: vf_note("keep alive"); m.l->keepAlive(); break;
		case 5: m.replies += vf_u8("replies") % 3; break;
		case 7: m.l->shrink_to_fit(); break;
		default: { // the channel to the other side
			if(m.w.frames.empty()) break;
			std::string f = m.w.frames.front(); m.w.frames.pop_front();
			if(loss && vf_u8("lost") % 6 < loss) { vf_note("lost"); break; }
			vf_note("deliver");
			deliver(s[1 - k], f);
			if(vf_u8("repeat") % 8 == 0) { vf_note("again"); deliver(s[1 - k], f); }
		} }
		vf_assert(s[0].w.cur.empty() && s[1].w.cur.empty(), "frames are sent completely");
	}
}
static void finish(Side* s)
{
	// in the end, the channel works
	vf_note("no more loss");
	for(int k = 0; k < 2; k++) if(s[k].open) s[k].send(true);
	drain(s, 0);
	for(int r = 0; r < 1000 && !done(s); r++) { s[r & 1].l->flush(); drain(s, 0); }
	vf_assert(done(s), "every message is delivered when the channel works");
}
// a connection, any loss and repetition
VC(arq_history)
{
	Side s[2] = {0, 1};
	setup(s[0], s[1]);
	g_stable = false;
	drain(s, 0);
	g_stable = true;
	history(s, vf_u8("loss") % 4, 200);
	finish(s);
	vf_cover("history");
}
// an old acknowledgement that shows up (much) later does not remove a message that was not received
VC(arq_stale)
{
	Side s[2] = {0, 1};
	setup(s[0], s[1]);
	g_stable = false;
	drain(s, 0);
	g_stable = true;
	std::vector<std::string> acks; // to s[0]
	for(int i = 0; i < 140 && vf_more("message"); i++) {
		s[0].send(true);
		for(int t = 0; !s[0].w.frames.empty() || !s[1].w.frames.empty(); t++) {
			vf_assert(t < 1000, "the channel gets quiet");
			int k = s[0].w.frames.empty() ? 1 : 0;
			std::string f = s[k].w.frames.front(); s[k].w.frames.pop_front();
			if(k == 1 && f.size() == 1 && ((uint8_t)f[0] & 0x80)) acks.push_back(f);
			deliver(s[1 - k], f);
		}
		if(acks.size() > 1 && vf_u8("stale") % 4 == 0) {
			size_t n = acks.size(), back = vf_u8("back") % 60;
			s[0].send(true);
			s[0].w.frames.clear(); // lost
			std::string f = acks[back < n ? n - 1 - back : 0];
			vf_note("old ack");
			deliver(s[0], f);
			s[0].w.frames.clear(); s[1].w.frames.clear();
			s[0].l->flush(); drain(s, 0);
			vf_assert(done(s), "a message is kept until it is acknowledged");
			acks.clear();
		}
	}
	finish(s);
	vf_cover("stale");
}
// one side restarts while messages are waiting; no retransmit while frames are on their way
VC(arq_reset)
{
	Side s[2] = {0, 1};
	setup(s[0], s[1]);
	int loss = vf_u8("loss") % 4;
	g_stable = false;
	drain(s, loss);
	if(vf_bool("connected")) {
		for(int r = 0; r < 4; r++) { s[r & 1].l->flush(); drain(s, 0); }
		g_stable = true;
		history(s, loss, 40);
		for(int k = 0; k < 2; k++) if(s[k].open) s[k].send(true);
		drain(s, 4);
		int k = vf_u8("side") & 1;
		vf_note("restart");
		g_stable = false;
		s[k].sent.resize(s[1 - k].got); // what was not received is gone
		s[k].l->reset();
	}
	for(int i = 0; i < 20 && vf_more("op"); i++) {
		Side& m = s[vf_u8("side") & 1];
		drain(s, loss);
		switch(vf_u8("what") % 4) {
		case 0: vf_note("flush"); m.l->flush(); break;
		case 1: vf_note("keep alive"); m.l->keepAlive(); break;
		default: vf_note("send"); m.send(true);
		}
	}
	finish(s);
	vf_cover("reset");
}
// known finding: messages are retransmitted while the frames of a reset are on their way
VC(arq_storm)
{
	Side s[2] = {0, 1};
	setup(s[0], s[1]);
	g_stable = false;
	for(int i = 0; i < 4; i++) for(int k = 0; k < 2; k++) while(!s[k].w.frames.empty()) { std::string f = s[k].w.frames.front(); s[k].w.frames.pop_front(); deliver(s[1 - k], f); }
	s[0].sent.push_back("A");
	s[0].encode("A", 1, true);
	s[0].w.frames.clear(); // lost
	s[1].l->reset();
	s[0].l->flush();
	for(int t = 0; !s[0].w.frames.empty() || !s[1].w.frames.empty();) for(int k = 0; k < 2; k++) if(!s[k].w.frames.empty()) {
		std::string f = s[k].w.frames.front(); s[k].w.frames.pop_front(); deliver(s[1 - k], f);
		vf_assert(t++ < 10000, "repeated reset frames do not trigger each other forever");
	}
	vf_cover("no storm");
}
// any frames
VC(arq_any)
{
	struct Any : public ProtocolLayer { int n; virtual void decode(void* b, size_t len) override { n++; for(size_t i = 0; i < len; i++) n += ((volatile uint8_t*)b)[i] & 0; } } up;
	up.n = 0;
	Wire w; L l(0);
	l.setUp(&up); l.setDown(&w); w.setUp(&l); up.setDown(&l);
	for(int i = 0; i < 40 && vf_more("op"); i++) {
		switch(vf_u8("what") % 4) {
		case 0: { std::string s(vf_u8("len") % 4, 'x'); l.encode(s.data(), s.size(), vf_u8("last") % 4 != 0); break; }
		case 1: if(vf_bool("flush")) l.flush(); else l.keepAlive(); break;
		default: {
			std::string f; size_t n = vf_u8("len") % 6;
			for(size_t k = 0; k < n; k++) { uint8_t c = vf_u8("byte"); f += (char)(vf_bool("likely") ? (c & 0xc0) | l.m_recvSeq : c); }
			char* p = (char*)malloc(n ? n : 1); memcpy(p, f.data(), n);
			int before = up.n;
			l.decode(p, n);
			vf_assert(up.n <= before + 1, "a frame has one message");
			free(p);
		} }
	}
	vf_cover("any");
}
#endif
