// C14: Fifo, MessageFifo, Buffer
#include "vf.h"
#include "pre.h"
#include <libstored/fifo.h>
using namespace stored;

struct E3 { uint8_t x[3]; bool operator==(E3 const& o) const { return x[0] == o.x[0] && x[1] == o.x[1] && x[2] == o.x[2]; } };
static inline E3 any3() { E3 e; e.x[0] = vf_u8("x0"); e.x[1] = vf_u8("x1"); e.x[2] = vf_u8("x2"); return e; }
template <typename T> struct Any { static T get() { return (T)vf_u64("x"); } };
template <> struct Any<E3> { static E3 get() { return any3(); } };

#ifdef VF_PROVE
// ---- bounded FIFOs: any capacity that is instantiated here, any content, any position in the ring
template <typename T, size_t C> struct St {
	typedef Fifo<T, C> F;
	F f;
	size_t av;
	St()
	{
		vf_havoc_(&f, sizeof(f), "fifo");
		size_t rp = vf_index(C + 1, "rp"), wp = vf_index(C + 1, "wp");
		f.m_rp.store((typename F::pointer)rp); f.m_wp.store((typename F::pointer)wp);
		av = wp >= rp ? wp - rp : wp + (C + 1) - rp;
		check(av);
	}
	void check(size_t n)
	{
		vf_assert(f.available() == n, "number of elements");
		vf_assert(f.empty() == (n == 0), "empty() agrees with the number of elements");
		vf_assert(f.space() == C - n, "space() agrees with the number of elements");
		vf_assert(f.full() == (n == C), "full() agrees with the number of elements");
		vf_assert(f.bounded() && (size_t)f.m_rp.load() <= C && (size_t)f.m_wp.load() <= C, "positions within the ring");
		size_t e = n;
		vf_assert(e <= C, "never more than the capacity");
	}
};
template <typename T, size_t C> static void push_proof()
{
	St<T, C> s; size_t n = s.av;
	vf_assume(n < C);
	T was; size_t k = 0;
	if(n) { k = vf_index(n, "k"); was = s.f.peek(k); }
	T x = Any<T>::get();
	if(vf_bool("emplace")) s.f.emplace_back(x); else s.f.push_back(x);
	s.check(n + 1);
	vf_assert(s.f.peek(n) == x, "the pushed element is the last one");
	if(n) vf_assert(s.f.peek(k) == was, "elements keep their place and value");
	if(!n) vf_assert(s.f.front() == x, "the only element is at the front");
	vf_cover("pushed");
}
template <typename T, size_t C> static void push_n_proof()
{
	St<T, C> s; size_t n = s.av;
	size_t len = (size_t)vf_u64("len"); vf_assume(len <= C - n);
	T was; size_t k = 0;
	if(n) { k = vf_index(n, "k"); was = s.f.peek(k); }
	T* x = (T*)vf_alloc(len * sizeof(T), "x");
	T const* const x0 = x;
	vf_unroll_((int)C + 1);
	s.f.push_back(x0, len);
	s.check(n + len);
	if(len) { size_t j = vf_index(len, "j"); vf_assert(s.f.peek(n + j) == x[j], "the pushed elements are the last ones, in order"); vf_cover("pushed"); }
	if(n) vf_assert(s.f.peek(k) == was, "elements keep their place and value");
}
template <typename T, size_t C> static void pop_proof()
{
	St<T, C> s; size_t n = s.av;
	size_t cnt = (size_t)vf_u64("count"); vf_assume(cnt <= n);
	T was; size_t k = 0;
	if(cnt < n) { size_t k0 = vf_index(n, "k"); vf_assume(k0 >= cnt); k = k0 - cnt; was = s.f.peek(k0); }
	if(n) { T a = s.f.front(); T b = s.f.peek(0); T c = s.f[0]; vf_assert(a == b && a == c, "front is the first element"); }
	s.f.pop_front(cnt);
	s.check(n - cnt);
	if(cnt < n) { vf_assert(s.f.peek(k) == was, "the remaining elements move up unmodified"); vf_cover("popped"); }
}
template <typename T, size_t C> static void clear_proof()
{
	St<T, C> s; size_t n = s.av;
	typename St<T, C>::F::View v = s.f.view();
	vf_assert(v.size() == n && v.empty() == (n == 0), "a view covers the content");
	if(n) { size_t k = vf_index(n, "k"); vf_assert(v[k] == s.f.peek(k), "a view shows the elements in order");
		size_t a = vf_index(n + 1, "offset"), b = vf_index(n + 1, "len");
		if(a + b <= n) {
			typename St<T, C>::F::View w = v.subview(a, b);
			vf_assert(w.size() == b, "size of a part of a view");
			if(k < b) vf_assert(w[k] == s.f.peek(a + k), "part of a view");
		}
	}
	s.f.clear();
	s.check(0);
	vf_cover("cleared");
}
#define ALL(T, C, n) \
	PVC(fifo_push_##n) { push_proof<T, C>(); } \
	PVC(fifo_pop_##n) { pop_proof<T, C>(); } \
	PVC(fifo_clear_##n) { clear_proof<T, C>(); }
ALL(uint8_t, 1, u8_1)
ALL(uint32_t, 7, u32_7)
ALL(E3, 30, e3_30)
ALL(uint16_t, 255, u16_255)
ALL(uint8_t, 65534, u8_64k)
ALL(uint64_t, 1000, u64_1k)
PVC(fifo_pushn_u8_1) { push_n_proof<uint8_t, 1>(); }
PVC(fifo_pushn_u8_3) { push_n_proof<uint8_t, 3>(); }
PVC(fifo_pushn_u32_7) { push_n_proof<uint32_t, 7>(); }

// ---- unbounded FIFOs: any content, any size
template <typename T> struct SU {
	typedef Fifo<T, 0, false> F;
	F f;
	size_t n;
	SU()
	{
		size_t N = vf_size("size");
		vf_assume(N >= 1);
		T* b = (T*)vf_alloc(N * sizeof(T), "content");
		f.m_buffer.m_buffer = std::vector<T>(b, b + N);
		size_t wp = vf_index(N + 1, "wp"), rp = vf_index(wp + 1, "rp");
		f.m_rp.store(rp); f.m_wp.store(wp);
		n = wp - rp;
	}
	void check(size_t m)
	{
		vf_assert(f.available() == m, "number of elements");
		vf_assert(f.empty() == (m == 0), "empty() agrees with the number of elements");
		vf_assert(!f.full() && f.space() > (1ull << 62), "an unbounded FIFO is never full");
		vf_assert((size_t)f.m_rp.load() <= (size_t)f.m_wp.load() && (size_t)f.m_wp.load() <= f.m_buffer.size(), "positions within the buffer");
	}
};
template <typename T> static void upush_proof()
{
	SU<T> s; size_t n = s.n;
	T was; size_t k = 0;
	if(n) { k = vf_index(n, "k"); was = s.f.peek(k); }
	T x = Any<T>::get();
	if(vf_bool("emplace")) s.f.emplace_back(x); else s.f.push_back(x);
	s.check(n + 1);
	vf_assert(s.f.peek(n) == x, "the pushed element is the last one");
	if(n) vf_assert(s.f.peek(k) == was, "elements keep their place and value");
	vf_cover("pushed");
}
template <typename T> static void upushn_proof()
{
	SU<T> s; size_t n = s.n;
	size_t len = vf_size("len");
	T was; size_t k = 0;
	if(n) { k = vf_index(n, "k"); was = s.f.peek(k); }
	T* x = (T*)vf_alloc(len * sizeof(T), "x");
	T const* const x0 = x;
	s.f.push_back(x0, len);
	s.check(n + len);
	if(len) { size_t j = vf_index(len, "j"); vf_assert(s.f.peek(n + j) == x[j], "the pushed elements are the last ones, in order"); vf_cover("pushed"); }
	if(n) vf_assert(s.f.peek(k) == was, "elements keep their place and value");
}
template <typename T> static void upop_proof()
{
	SU<T> s; size_t n = s.n;
	size_t cnt = vf_size("count"); vf_assume(cnt <= n);
	T was; size_t k = 0;
	if(cnt < n) { size_t k0 = vf_index(n, "k"); vf_assume(k0 >= cnt); k = k0 - cnt; was = s.f.peek(k0); }
	if(n) { T a = s.f.front(); T b = s.f.peek(0); T c = s.f[0]; vf_assert(a == b && a == c, "front is the first element"); }
	s.f.pop_front(cnt);
	s.check(n - cnt);
	if(cnt < n) { vf_assert(k < n - cnt, "lemma"); vf_assert(k < s.f.available(), "lemma"); vf_assert(s.f.peek(k) == was, "the remaining elements move up unmodified"); vf_cover("popped"); }
}
PVC(fifo_upush_u8) { upush_proof<uint8_t>(); }
PVC(fifo_upush_u32) { upush_proof<uint32_t>(); }
PVC(fifo_upop_u8) { upop_proof<uint8_t>(); }
PVC(fifo_upop_u32) { upop_proof<uint32_t>(); }

// ---- bounded message FIFO: any reachable state, any message
template <size_t C, size_t M> struct SM {
	typedef MessageFifo<C, M, true> F;
	typedef typename F::buffer_pointer P;
	F f;
	size_t n;
	SM(unsigned mrp, unsigned cnt) : n(cnt)
	{
		vf_havoc_(&f.m_buffer, sizeof(f.m_buffer), "content");
		f.m_rp.store((P)vf_index(C + 1, "rp")); f.m_wp.store((P)vf_index(C + 1, "wp")); f.m_wp_partial = (P)vf_index(C + 1, "partial");
		f.m_msg.m_rp.store((decltype(f.m_msg.m_rp.load()))mrp); f.m_msg.m_wp.store((decltype(f.m_msg.m_rp.load()))((mrp + cnt) % (M + 1)));
		for(unsigned i = 0; i < cnt; i++) { f.m_msg.m_buffer.m_buffer[(mrp + i) % (M + 1)].first = (P)vf_index(C + 1, "first"); f.m_msg.m_buffer.m_buffer[(mrp + i) % (M + 1)].second = (P)vf_index(C + 1, "length"); }
		vf_assume(inv(cnt));
	}
	size_t first(size_t i) { return f.m_msg.peek(i).first; }
	size_t length(size_t i) { return f.m_msg.peek(i).second; }
	//! the messages follow each other from rp on, with at most one wrap to the start, up to wp
	bool inv(size_t cnt)
	{
		size_t rp = f.m_rp.load(), wp = f.m_wp.load(), part = f.m_wp_partial;
		bool ok = (rp <= C) & (wp <= part) & (part <= C) & ((wp >= rp) | (part < rp)) & ((wp < rp) | (rp > 0) | (part < C));
		size_t p = rp; bool wrapped = false;
		for(size_t i = 0; i < cnt; i++) {
			size_t a = first(i), l = length(i);
			bool here = a == p, wr = (!wrapped) & (a == 0) & (rp > 0);
			ok = ok & (a <= C) & (l <= C) & (a + l <= C) & ((l == 0) | here | wr);
			bool w2 = wrapped | ((l > 0) & !here);
			ok = ok & ((l == 0) | !w2 | (a + l < rp));
			size_t e = a + l;
			size_t z = (size_t)0 - (size_t)(l > 0);
			p = (e & z) | (p & ~z);
			wrapped = w2;
		}
		ok = ok & ((p == wp) | ((!wrapped) & (wp == 0) & (rp > 0))) & (!wrapped | (wp < rp));
		return ok;
	}
	void check(size_t cnt)
	{
		vf_assert(f.m_msg.available() == cnt, "number of messages");
		vf_assert(inv(cnt), "the messages are where they should be in the ring");
	}
};
template <size_t C, size_t M> static void mpush_proof(unsigned mrp, unsigned cnt, bool push)
{
	SM<C, M> s(mrp, cnt);
	size_t len = vf_index(C + 1, "len"), part = (size_t)s.f.m_wp_partial - (size_t)s.f.m_wp.load();
	vf_assume(part + len <= C);
	char* x = (char*)vf_alloc(len, "message");
	size_t i = 0, k = 0, j = 0, q = 0; char was = 0, pw = 0;
	if(cnt) { i = (size_t)vf_fork((int)cnt); if(s.length(i)) { k = vf_index(s.length(i), "k"); was = s.f.m_buffer.m_buffer[s.first(i) + k]; } }
	size_t il = cnt ? s.length(i) : 0;
	if(part) { q = vf_index(part, "q"); pw = s.f.m_buffer.m_buffer[s.f.m_wp.load() + q]; }
	if(len) j = vf_index(len, "j");
	bool r = push ? s.f.push_back(x, len) : s.f.append_back(x, len);
	if(!cnt && !part && len < C) vf_assert(r, "an empty FIFO accepts any message up to its capacity");
	if(push && cnt == M) vf_assert(!r, "never more messages than configured");
	size_t now = r && push ? cnt + 1 : cnt;
	s.check(now);
	if(cnt) { vf_assert(s.length(i) == il, "messages keep their length"); if(il) vf_assert(s.f.m_buffer.m_buffer[s.first(i) + k] == was, "messages keep their content"); }
	if(r && push) {
		vf_assert(s.length(cnt) == part + len, "the new message is complete");
		if(part) vf_assert(s.f.m_buffer.m_buffer[s.first(cnt) + q] == pw, "starting with what was appended before");
		if(len) vf_assert(s.f.m_buffer.m_buffer[s.first(cnt) + part + j] == x[j], "followed by the message");
		vf_assert(s.f.m_wp_partial == s.f.m_wp.load(), "nothing pending");
		vf_cover("pushed");
	} else {
		size_t w = s.f.m_wp.load();
		vf_assert((size_t)s.f.m_wp_partial - w == part + (r ? len : 0), "what is pending");
		if(part) vf_assert(s.f.m_buffer.m_buffer[w + q] == pw, "pending data is kept");
		if(r && len) { vf_assert(s.f.m_buffer.m_buffer[w + part + j] == x[j], "the data is appended"); vf_cover("appended"); }
	}
}
template <size_t C, size_t M> static void mpop_proof(unsigned mrp, unsigned cnt)
{
	SM<C, M> s(mrp, cnt);
	size_t part = (size_t)s.f.m_wp_partial - (size_t)s.f.m_wp.load();
	size_t i = 0, k = 0, q = 0; char was = 0, pw = 0;
	if(part) { q = vf_index(part, "q"); pw = s.f.m_buffer.m_buffer[s.f.m_wp.load() + q]; }
	switch(vf_fork(cnt ? 4 : 3)) {
	case 0: s.f.reset_back(); s.check(cnt); vf_assert(s.f.m_wp_partial == s.f.m_wp.load(), "nothing pending"); return;
	case 1: s.f.clear(); s.check(0); vf_assert(s.f.m_wp_partial == s.f.m_wp.load(), "nothing pending"); return;
	case 2: {
		if(cnt >= M) { vf_assert(!s.f.push_back(), "never more messages than configured"); return; }
		vf_assert(s.f.push_back(), "a pending message can be completed");
		s.check(cnt + 1);
		vf_assert(s.length(cnt) == part && s.f.m_wp_partial == s.f.m_wp.load(), "the pending message is complete");
		if(part) vf_assert(s.f.m_buffer.m_buffer[s.first(cnt) + q] == pw, "and unmodified");
		return; }
	default: ;
	}
	Message m = s.f.front();
	vf_assert(m.size() == s.length(0), "length of the first message");
	if(m.size()) { size_t z = vf_index(m.size(), "z"); vf_assert(m.data()[z] == s.f.m_buffer.m_buffer[s.first(0) + z], "the first message"); }
	size_t il = 0;
	if(cnt > 1) { i = 1 + (size_t)vf_fork((int)cnt - 1); il = s.length(i); if(il) { k = vf_index(il, "k"); was = s.f.m_buffer.m_buffer[s.first(i) + k]; } }
	s.f.pop_front();
	s.check(cnt - 1);
	if(cnt > 1) { vf_assert(s.length(i - 1) == il, "the other messages stay"); if(il) vf_assert(s.f.m_buffer.m_buffer[s.first(i - 1) + k] == was, "the other messages stay"); }
	vf_assert((size_t)s.f.m_wp_partial - (size_t)s.f.m_wp.load() == part, "pending data is kept");
	if(part) vf_assert(s.f.m_buffer.m_buffer[s.f.m_wp.load() + q] == pw, "pending data is kept");
	vf_cover("popped");
}
template <size_t C, size_t M> static void mspace_proof(unsigned mrp, unsigned cnt)
{
	SM<C, M> s(mrp, cnt);
	size_t len = vf_index(C + 1, "len"), part = (size_t)s.f.m_wp_partial - (size_t)s.f.m_wp.load();
	vf_assume(part + len <= C);
	char* x = (char*)vf_alloc(len, "message");
	size_t sp = s.f.space(); bool full = s.f.full();
	vf_assert(sp <= C && full == (cnt == M || sp == 0), "reported space");
	vf_assert(s.f.available() == cnt && s.f.empty() == (cnt == 0), "number of messages");
	vf_assume(len <= sp && cnt < M);
	bool r = s.f.append_back(x, len);
	vf_assert(r, "accepts what fits the reported space");
	vf_cover("fits");
}
PVC(msg_push_8) { mpush_proof<8, 2>(2, (unsigned)vf_fork(3), true); }
PVC(msg_append_8) { mpush_proof<8, 2>(2, (unsigned)vf_fork(3), false); }
PVC(msg_space_8) { mspace_proof<8, 2>(2, (unsigned)vf_fork(3)); }
PVC(msg_pop_8) { mpop_proof<8, 2>(2, (unsigned)vf_fork(3)); }
PVC(msg_pop_32) { mpop_proof<32, 3>(2, (unsigned)vf_fork(4)); }
PVC(msg_push_300) { mpush_proof<300, 2>(2, (unsigned)vf_fork(3), true); }
PVC(msg_append_300) { mpush_proof<300, 2>(2, (unsigned)vf_fork(3), false); }
PVC(msg_space_300) { mspace_proof<300, 2>(2, (unsigned)vf_fork(3)); }
PVC(msg_pop_300) { mpop_proof<300, 2>(2, (unsigned)vf_fork(3)); }
#else

#include <deque>
#include <vector>
template <typename T, size_t C, bool TS> static void history()
{
	Fifo<T, C, TS>* fp = new Fifo<T, C, TS>(); Fifo<T, C, TS>& f = *fp;
	std::deque<T> m;
	int ops = 0;
	while(vf_more("op") && ops++ < 80) {
		size_t space = C ? C - m.size() : 1000;
		switch(vf_choice(8, "op")) {
		case 0: if(space) { T x = Any<T>::get(); f.push_back(x); m.push_back(x); vf_cover("push"); } break;
		case 1: if(space) { T x = Any<T>::get(); f.emplace_back(x); m.push_back(x); } break;
		case 2: case 3: {
			size_t n = vf_bool("big") ? vf_u16("n") % 300 : vf_u8("n") % 20; if(n > space) n = space;
			std::vector<T> x; for(size_t i = 0; i < n; i++) x.push_back(i < 2 || i + 1 == n ? Any<T>::get() : T());
			if(vf_bool("iterator")) f.push_back(x.begin(), x.end()); else f.push_back(x.data(), n);
			for(auto const& v : x) m.push_back(v);
			vf_cover("push many");
			break; }
		case 4: if(space >= 3) { T a = Any<T>::get(), b = Any<T>::get(), c = Any<T>::get(); f.push_back({a, b, c}); m.push_back(a); m.push_back(b); m.push_back(c); } break;
		case 5: if(!m.empty()) { f.pop_front(); m.pop_front(); vf_cover("pop"); } break;
		case 6: { size_t n = vf_bool("big") ? vf_u16("n") : vf_u8("n") % 20; if(n > m.size()) n = m.size(); f.pop_front(n); m.erase(m.begin(), m.begin() + (ptrdiff_t)n); break; }
		default:
			switch(vf_choice(4, "what")) {
			case 0: f.clear(); m.clear(); break;
			case 1: { size_t i = 0; for(auto const& x : f) { vf_assert(i < m.size() && x == m[i], "iterating pops the elements in order"); i++; } vf_assert(i == m.size(), "iterating pops everything"); m.clear(); break; }
			case 2: if(C || 1) {
				auto v = f.view();
				vf_assert(v.size() == m.size() && v.empty() == m.empty(), "size of the view");
				size_t a = m.size() ? vf_u8("lstrip") % (m.size() + 1) : 0; 
				std::vector<T> out(m.size() + 1), sp(m.size() + 1); v.copy(out.data());
				T const* q = v.contiguous(sp.data());
				size_t i = 0;
				for(auto const& x : v) { if(C) vf_assert(i < m.size(), "view"); (void)x; i++; }
				for(i = 0; i < m.size(); i++) vf_assert(v[i] == m[i] && out[i] == m[i] && q[i] == m[i], "a view shows the elements in order");
				auto w = v; w.lstrip(a); vf_assert(w.size() == m.size() - a, "stripped view"); if(w.size()) vf_assert(w[0] == m[a], "stripped view");
				w = v; w.rstrip(a); vf_assert(w.size() == m.size() - a, "stripped view"); if(w.size()) vf_assert(w[w.size() - 1] == m[m.size() - a - 1], "stripped view");
				break; }
			default: if(!m.empty()) { size_t i = vf_u16("i") % m.size(); T x = Any<T>::get(); f[i] = x; m[i] = x; }
			}
		}
		vf_assert(f.available() == m.size() && f.empty() == m.empty(), "number of elements");
		if(C) vf_assert(f.space() == C - m.size() && f.full() == (m.size() == C), "space agrees with the content");
		else vf_assert(!f.full() && f.space() > 1000000, "an unbounded FIFO is never full");
		vf_assert(f.available_chunk() <= m.size() && (m.empty() || f.available_chunk() > 0), "contiguous part");
		if(!m.empty()) vf_assert(f.front() == m.front() && f.peek(m.size() - 1) == m.back(), "first and last element");
		for(size_t i = 0; i < m.size(); i++) vf_assert(f.peek(i) == m[i], "elements keep their order and value");
	}
	delete fp;
	vf_cover("history");
}
VC(fifo_h_u8_1) { history<uint8_t, 1, true>(); }
VC(fifo_h_e3_7) { history<E3, 7, false>(); }
VC(fifo_h_u16_254) { history<uint16_t, 254, true>(); }
VC(fifo_h_u8_255) { history<uint8_t, 255, true>(); }
VC(fifo_h_u32_300) { history<uint32_t, 300, false>(); }
VC(fifo_h_u64_0) { history<uint64_t, 0, false>(); }
VC(fifo_h_e3_0) { history<E3, 0, false>(); }

template <size_t C, size_t M, bool TS> static void mhistory()
{
	typedef MessageFifo<C, M, TS> F;
	F f;
	std::deque<std::string> m; std::string part;
	// where the bytes of the bounded FIFO must be: only to know what has to be accepted
	int ops = 0;
	while(vf_more("op") && ops++ < 80) {
		size_t n = vf_choice(4, "size class") == 0 ? vf_u8("n") : vf_u8("n") % 8;
		if(C && n > C) n %= C;
		if(C && n + part.size() > C) n = C - part.size();
		std::string x;
		uint8_t pat = vf_u8("pattern");
		for(size_t i = 0; i < n; i++) x += (char)(pat + i);
		size_t count = m.size(), space = f.space(); bool wasfull = f.full();
		bool fits = !C || n <= space;
		switch(vf_choice(6, "op")) {
		case 0: case 1: {
			bool r = f.push_back(x.data(), x.size());
			if(!r) { vf_assert(C && (M == count || x.size() > space), "only refuses a message that does not fit"); vf_cover("refused"); }
			if(C && count < M && m.empty() && part.empty() && n < C) vf_assert(r, "an empty FIFO accepts any message up to its capacity");
			if(M && count == M) vf_assert(!r, "never more messages than configured");
			if(r) { m.push_back(part + x); part.clear(); vf_cover("push"); }
			break; }
		case 2: {
			bool r = f.append_back(x.data(), x.size());
			if(!r) vf_assert(C && (M == count || x.size() > space), "only refuses data that does not fit");
			if(r) { part += x; vf_cover("append"); }
			break; }
		case 3: { bool r = f.push_back(); vf_assert(r == !(M && count == M), "a partial message can be completed"); if(r) { m.push_back(part); part.clear(); } break; }
		case 4: if(!m.empty()) { f.pop_front(); m.pop_front(); vf_cover("pop"); } break;
		default:
			switch(vf_choice(4, "what")) {
			case 0: f.clear(); m.clear(); part.clear(); break;
			case 1: f.reset_back(); part.clear(); break;
			case 2: { size_t i = 0; for(auto q : f) { vf_assert(i < m.size() && std::string(q.data(), q.size()) == m[i], "iterating pops the messages in order"); i++; } vf_assert(i == m.size(), "iterating pops everything"); m.clear(); break; }
			default: {
				std::string y = x; y += 'q';
				if(!part.empty() || (C && y.size() >= C)) break;
				size_t k = f.push_back({MessageView(x.data(), x.size()), MessageView(y.data(), y.size())});
				vf_assert(k <= 2 && (C || k == 2), "number of messages pushed");
				if(k > 0) m.push_back(x);
				if(k > 1) m.push_back(y); else if(C) f.reset_back();
			} }
		}
		(void)wasfull; (void)fits;
		vf_assert(f.available() == m.size() && f.empty() == m.empty(), "number of messages");
		if(!m.empty()) { auto q = f.front(); vf_assert(std::string(q.data(), q.size()) == m.front(), "the first message is whole and unmodified"); }
		size_t i = 0;
		for(auto const& s : m) { auto const& q = f.m_msg.peek(i++); vf_assert(std::string(q.second ? &f.m_buffer[q.first] : "", q.second) == s, "messages stay whole and unmodified"); }
		if(!C) vf_assert(!f.full() && f.space() == std::numeric_limits<size_t>::max(), "an unbounded FIFO is never full");
		else vf_assert(f.space() < C + 1 && (!f.full() || f.space() == 0 || m.size() == M), "space and full agree");
	}
	vf_cover("history");
}
VC(msg_h_8) { mhistory<8, 3, true>(); }
VC(msg_h_32) { mhistory<32, 4, false>(); }
VC(msg_h_255) { mhistory<255, 31, true>(); }
VC(msg_h_0) { mhistory<0, 0, false>(); }

// ---- the loopback hands messages over whole
struct Up : public ProtocolLayer { std::deque<std::string> m; virtual void decode(void* b, size_t n) override { m.push_back(std::string((char*)b, n)); } };
VC(fifo_loopback)
{
	Up ua, ub; FifoLoopback<24, 3> l; l.a().setUp(&ua); l.b().setUp(&ub); ua.setDown(&l.a()); ub.setDown(&l.b());
	std::deque<std::string> ab, ba;
	vf_assert(l.a().mtu() > 0, "mtu");
	int ops = 0;
	while(vf_more("op") && ops++ < 60) {
		bool a = vf_bool("side");
		std::deque<std::string>& q = a ? ab : ba; ProtocolLayer& s = a ? (ProtocolLayer&)ua : (ProtocolLayer&)ub;
		auto& ff = a ? l.a2b() : l.b2a();
		switch(vf_choice(3, "op")) {
		case 0: {
			std::string x = std::string(vf_u8("n") % (l.a().mtu() + 1), (char)vf_u8("c"));
			bool must = q.empty();
			ff.reset(); size_t before = ff.available();
			s.encode(x.data(), x.size(), true);
			bool ok = ff.available() > before;
			vf_assert(ok == (ff.lastError() == 0), "a dropped message is reported");
			if(must) vf_assert(ok, "an empty FIFO accepts any message up to the MTU");
			if(ok) q.push_back(x);
			break; }
		case 1: { Up& r = a ? ub : ua; r.m.clear(); int e = ff.recv(); vf_assert(q.empty() ? e == EAGAIN && r.m.empty() : e == 0 && r.m.size() == 1 && r.m[0] == q.front(), "one message per recv(), in order and unmodified"); if(!q.empty()) q.pop_front(); vf_cover("recv"); break; }
		default: { Up& r = a ? ub : ua; r.m.clear(); ff.recvAll(); vf_assert(r.m == q, "all messages in order"); q.clear(); }
		}
	}
	ua.setDown(nullptr); ub.setDown(nullptr);
}
#endif
