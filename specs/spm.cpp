// C13: ScratchPad
#include "vf.h"
#include "pre.h"
#include "vf_list.h"
#include <libstored/spm.h>
using namespace stored;

struct T12 { uint32_t x[3]; };
struct T3 { uint8_t x[3]; };

#ifdef VF_PROVE
static bool g_mayThrow;
SPEC void vf_on_throw() { vf_assert(g_mayThrow, "only refuses to go beyond the maximum size"); vf_cover("refused"); }

template <typename P> static char* any_chunk(char const* nm, size_t* size)
{
	size_t n = vf_size(nm);
	vf_assume(n >= 1 && n <= (size_t)P::maxSize + (size_t)P::spare);
	char* c = (char*)malloc(n + P::chunkHeader);
	*(size_t*)c = n;
	*size = n;
	return c + P::chunkHeader;
}
//! any scratch pad with up to two old chunks
template <typename P> struct State {
	P p;
	char* c[3]; size_t n[3]; unsigned chunks;
	State(unsigned k) : chunks(k)
	{
		vf_unroll_(5);
		for(unsigned i = 0; i < k; i++) {
			c[i] = any_chunk<P>(i == 0 ? "chunk0" : i == 1 ? "chunk1" : "chunk2", &n[i]);
			if(i + 1 < k) p.m_old.push_back(c[i]); else p.m_buffer = c[i];
		}
		p.m_size = (typename P::size_type)vf_u64("m_size");
		p.m_total = (typename P::size_type)vf_u64("m_total");
		p.m_max = (typename P::size_type)vf_u64("m_max");
		if(!k) vf_assume(p.m_total == 0);
		vf_assume(inv());
	}
	bool inv()
	{
		size_t B = p.m_buffer ? p.bufferSize() : 0;
		return ((size_t)p.m_total <= (size_t)P::maxSize) & (p.m_total <= p.m_max) & ((size_t)p.m_max <= (size_t)P::maxSize) & (p.m_size <= p.m_total) & ((size_t)p.m_size <= B);
	}
	void check()
	{
		size_t B = p.m_buffer ? p.bufferSize() : 0;
		vf_assert((size_t)p.m_total <= (size_t)P::maxSize, "never more than the maximum");
		vf_assert((p.m_total <= p.m_max) & ((size_t)p.m_max <= (size_t)P::maxSize), "max() is the highest size");
		vf_assert(p.m_size <= p.m_total, "the current chunk's part of the size");
		vf_assert((size_t)p.m_size <= B, "the current chunk has what is allocated in it");
	}
};

template <typename P, typename T> static void alloc_proof(unsigned chunks, size_t align)
{
	State<P> s(chunks);
	P& p = s.p;
	size_t S = p.m_size, total = p.m_total, B = p.bufferSize();
	char* buf = p.m_buffer;
	size_t cnt = (size_t)vf_u64("count");
	size_t k = 0; char was = 0;
	if(S) { k = vf_index(S, "k"); was = buf[k]; }
	bool ovf = cnt > (size_t)P::maxSize / sizeof(T);
	g_mayThrow = ovf || total + cnt * sizeof(T) + (align - 1) > (size_t)P::maxSize;
	T* r = p.template alloc<T>(cnt, align);
	char* c = (char*)r;
	size_t len = cnt * sizeof(T);
	vf_assert(c != nullptr, "never null");
	vf_assert(!ovf, "the size of the allocation does not overflow");
	s.check();
	if(len == 0) {
		vf_assert((size_t)p.m_total == total && (size_t)p.m_size == S, "an empty allocation takes nothing");
		vf_assert(buf == nullptr || p.m_buffer == buf, "an empty allocation moves nothing");
		return;
	}
	size_t nb = p.bufferSize();
	vf_assert((size_t)p.m_total >= total + len && (size_t)p.m_total <= total + len + (align - 1), "the size grows by the allocation and its padding");
	if(buf && p.m_buffer == buf) {
		size_t off = (size_t)(c - buf);
		vf_assert(nb == B, "the chunk keeps its size");
		vf_assert(off >= S && off + len <= nb, "within the free part of the chunk");
		vf_assert((size_t)p.m_size == off + len, "the next allocation comes after this one");
		vf_assert(off % align == 0, "aligned within the chunk");
		vf_cover("in current chunk");
	} else {
		vf_assert(buf == nullptr || total == 0 || p.m_old.back() == buf, "the current chunk is kept");
		vf_assert(c == p.m_buffer && len <= nb && (size_t)p.m_size == len, "at the start of a new chunk");
		vf_cover("in new chunk");
	}
	if(S) vf_assert(buf[k] == was, "live allocations are not touched");
	// the memory is really there
	c[0] = 1; c[len - 1] = 1;
}
template <typename P> static void alloc_all()
{
	unsigned ch = vf_choice(3, "chunks");
	unsigned k = ch == 0 ? 0 : ch == 1 ? 1 : 2;
	switch(vf_choice(5, "type")) {
	case 0: alloc_proof<P, char>(k, 1); break;
	case 1: alloc_proof<P, uint16_t>(k, 2); break;
	case 2: alloc_proof<P, uint64_t>(k, 8); break;
	case 3: alloc_proof<P, T12>(k, 4); break;
	default: alloc_proof<P, char>(k, 8); break;
	}
}
template <typename P, typename T> static void alloc_ks(size_t align) { switch(vf_choice(3, "chunks")) { case 0: alloc_proof<P, T>(0, align); break; case 1: alloc_proof<P, T>(1, align); break; default: alloc_proof<P, T>(2, align); } }
PVC(spm_alloc16) { alloc_all<ScratchPad<> >(); }
PVC(spm_alloc8) { alloc_all<ScratchPad<200> >(); }
PVC(spm_alloc32_1) { alloc_ks<ScratchPad<0xffffffffu>, char>(1); }
PVC(spm_alloc32_2) { alloc_ks<ScratchPad<0xffffffffu>, uint16_t>(2); }
PVC(spm_alloc32_8) { alloc_ks<ScratchPad<0xffffffffu>, uint64_t>(8); }
PVC(spm_alloc32_1a) { alloc_ks<ScratchPad<0xffffffffu>, char>(8); }

template <typename P> static void rollback_proof(unsigned chunks)
{
	State<P> s(chunks);
	P& p = s.p;
	unsigned j = (unsigned)vf_fork((int)chunks);
	size_t off = vf_size("snapshot offset"), total = vf_size("snapshot size");
	vf_assume(off <= s.n[j] && off <= total && total <= (size_t)p.m_total && total > 0);
	if(j + 1 == chunks) vf_assume(off <= (size_t)p.m_size);
	char* c = s.c[j];
	char w0 = c[0];
	char low = s.c[0][0];
	size_t mx = p.m_max;
	{
		typename P::Snapshot snap(p, &c[off], (typename P::size_type)total);
	}
	vf_assert(p.m_buffer == c && (size_t)p.m_size == off && (size_t)p.m_total == total, "exactly the state of the snapshot");
	vf_assert(p.m_old.size() == j, "older chunks are kept, newer ones are released");
	vf_assert(p.bufferSize() == s.n[j] && c[0] == w0 && s.c[0][0] == low && (size_t)p.m_max == mx, "live memory stays as it is");
	s.check();
	vf_cover("rolled back");
}
PVC(spm_rollback16) { switch(vf_choice(3, "chunks")) { case 0: rollback_proof<ScratchPad<> >(1); break; case 1: rollback_proof<ScratchPad<> >(2); break; default: rollback_proof<ScratchPad<> >(3); } }
PVC(spm_rollback32) { switch(vf_choice(3, "chunks")) { case 0: rollback_proof<ScratchPad<0xffffffffu> >(1); break; case 1: rollback_proof<ScratchPad<0xffffffffu> >(2); break; default: rollback_proof<ScratchPad<0xffffffffu> >(3); } }

template <typename P> static void other_proof(unsigned chunks)
{
	State<P> s(chunks);
	P& p = s.p;
	size_t S = p.m_size, total = p.m_total, mx = p.m_max, B = p.bufferSize();
	char* buf = p.m_buffer;
	size_t k = 0; char was = 0;
	if(S) { k = vf_index(S, "k"); was = buf[k]; }
	vf_assert(p.size() == total && p.max() == mx && p.empty() == (total == 0) && p.capacity() == total - S + B && p.chunks() == chunks, "reported state");
	switch(vf_choice(4, "op")) {
	case 0: {
		size_t more = vf_size("more"); vf_assume(more <= (size_t)P::maxSize);
		p.reserve(more);
		vf_assert(p.size() == total && p.max() == mx, "reserving allocates nothing");
		vf_assert(p.bufferSize() >= (size_t)p.m_size + more, "the reserved amount is available");
		vf_assert(p.m_buffer == buf ? (size_t)p.m_size == S && p.bufferSize() == B : p.m_size == 0, "the current chunk does not move");
		if(total && p.m_buffer != buf) vf_assert(p.m_old.back() == buf, "the current chunk is kept");
		if(S) vf_assert(buf[k] == was, "live allocations are not touched");
		vf_cover("reserve");
		break; }
	case 1: {
		p.reset();
		vf_assert(p.size() == 0 && p.empty() && p.chunks() <= 1 && p.max() == mx, "a reset releases everything");
		if(chunks > 1) vf_assert(p.capacity() >= mx, "chunks are coalesced");
		vf_cover("reset");
		break; }
	case 2: {
		p.shrink_to_fit();
		vf_assert(p.size() == total, "shrinking releases no live memory");
		if(total) { vf_assert(p.m_buffer == buf && (size_t)p.m_size == S && p.max() == total, "nothing moves"); if(S) vf_assert(buf[k] == was, "live allocations are not touched"); }
		else vf_assert(p.chunks() == 0 && p.capacity() == 0, "an empty pad returns all memory");
		vf_cover("shrink");
		break; }
	default: {
		// a snapshot and its rollback right away change nothing
		{ typename P::Snapshot snap = p.snapshot(); }
		vf_assert(p.size() == total, "size as before");
		if(total) vf_assert(p.m_buffer == buf && (size_t)p.m_size == S && p.m_old.size() == chunks - 1, "nothing moves");
		vf_cover("snapshot");
		break; }
	}
	s.check();
}
PVC(spm_other16) { switch(vf_choice(4, "chunks")) { case 0: other_proof<ScratchPad<> >(0); break; case 1: other_proof<ScratchPad<> >(1); break; case 2: other_proof<ScratchPad<> >(2); break; default: other_proof<ScratchPad<> >(3); } }
PVC(spm_other32) { switch(vf_choice(4, "chunks")) { case 0: other_proof<ScratchPad<0xffffffffu> >(0); break; case 1: other_proof<ScratchPad<0xffffffffu> >(1); break; case 2: other_proof<ScratchPad<0xffffffffu> >(2); break; default: other_proof<ScratchPad<0xffffffffu> >(3); } }
template <typename P> static void moved_proof()
{
	P p, q;
	typedef typename P::Snapshot Snap;
	char x[16];
	typename P::size_type z1 = (typename P::size_type)vf_u64("size1"), z2 = (typename P::size_type)vf_u64("size2");
	Snap* s = (Snap*)malloc(sizeof(Snap)); Snap* t = (Snap*)malloc(sizeof(Snap));
	new(s) Snap(p, x + 3, z1);
	switch(vf_fork(3)) {
	case 0: new(t) Snap(vf_fork(2) ? p : q, x + 5, z2); if(vf_fork(2)) t->reset(); *t = std::move(*s); break;
	case 1: new(t) Snap(std::move(*s)); break;
	default: new(t) Snap((Snap const&)*s);
	}
	vf_assert(t->m_spm == &p && t->m_buffer == x + 3 && t->m_size == z1, "a moved snapshot is the same snapshot");
	vf_assert(!s->m_spm, "what is moved from does not roll back anymore");
	vf_cover("moved");
}
PVC(spm_moved) { moved_proof<ScratchPad<> >(); moved_proof<ScratchPad<0xffffffffu> >(); }
#else

#include <vector>
struct Live { char* p; size_t n; uint8_t pat; };
template <typename P> struct Hist {
	P p;
	std::vector<Live> live;
	struct Snap { typename P::Snapshot s; size_t lives; size_t size; };
	std::vector<Snap> snaps;
	~Hist() { while(!snaps.empty()) { snaps.back().s.reset(); snaps.pop_back(); } }

	void drop() { while(!snaps.empty()) { snaps.back().s.reset(); snaps.pop_back(); } }
	void fill(Live& l) { for(size_t i = 0; i < l.n; i++) l.p[i] = (char)(l.pat + (uint8_t)i); }
	void check()
	{
		size_t sum = 0;
		for(Live& l : live) {
			sum += l.n;
			for(size_t i = 0; i < l.n; i++) vf_assert((uint8_t)l.p[i] == (uint8_t)(l.pat + (uint8_t)i), "live allocations keep their content");
		}
		vf_assert(p.size() >= sum, "the size covers all live allocations");
		vf_assert(p.size() <= (size_t)P::maxSize, "never more than the maximum");
		vf_assert(p.max() >= p.size() && p.capacity() >= p.size() && p.empty() == (p.size() == 0), "the reported sizes are consistent");
	}
	template <typename T> void alloc(size_t n, size_t align)
	{
		size_t before = p.size();
		T* r;
		try { r = align ? p.template alloc<T>(n, align) : p.template alloc<T>(n); }
		catch(std::bad_alloc&) {
			vf_assert(n > (size_t)P::maxSize || before + n * sizeof(T) + 7 > (size_t)P::maxSize, "only refuses to go beyond the maximum size");
			vf_assert(p.size() == before, "a refused allocation takes nothing");
			vf_cover("refused");
			return;
		}
		vf_assert(r != nullptr, "never null");
		Live l = {(char*)r, n * sizeof(T), vf_u8("pattern")};
		size_t a = align ? align : alignof(T); if(a > sizeof(void*)) a = sizeof(void*);
		if(l.n) {
			vf_assert((uintptr_t)r % a == 0, "aligned as requested");
			vf_assert(p.size() >= before + l.n && p.size() < before + l.n + 8, "the size grows by the allocation and its padding");
			for(Live& o : live) vf_assert(!o.n || l.p + l.n <= o.p || o.p + o.n <= l.p, "allocations never overlap");
			fill(l); live.push_back(l);
		} else vf_assert(p.size() == before, "an empty allocation takes nothing");
	}
	size_t amount()
	{
		switch(vf_choice(5, "amount")) {
		case 0: return vf_u8("n") % 17;
		case 1: return vf_u8("n");
		case 2: return vf_u16("n");
		case 3: return p.capacity() - p.size() + vf_u8("n") % 9 - 4 < 100000 ? p.capacity() - p.size() + vf_u8("n") % 9 - 4 : 1;
		default: return vf_u8("n") < 8 ? (size_t)P::maxSize - p.size() + vf_u8("k") % 20 : vf_u8("n") % 70;
		}
	}
	void run()
	{
		int ops = 0;
		size_t bytes = 0;
		while(vf_more("op") && ops++ < 60) {
			switch(vf_choice(11, "op")) {
			case 0: case 1: case 2: {
				size_t n = amount(); if(n > 70000 && n < (size_t)P::maxSize) n &= 0xffff; bytes += n; if(bytes > 300000) return;
				switch(vf_choice(7, "type")) {
				case 0: alloc<char>(n, 0); break;
				case 1: alloc<char>(n, (size_t)1 << vf_choice(5, "align")); break;
				case 2: alloc<uint16_t>(n / 2, 0); break;
				case 3: alloc<uint64_t>(n / 8, 0); break;
				case 4: alloc<T12>(n / 12, 0); break;
				case 5: alloc<T3>(n / 3, 0); break;
				default: if(n < 200) alloc<uint32_t>(vf_u8("wrap") == 0 ? ((size_t)1 << 62) + 1 : n, 0);
				}
				break; }
			case 3: case 4: { snaps.push_back(Snap{p.snapshot(), live.size(), p.size()}); vf_cover("snapshot"); break; }
			case 5: case 6: {
				if(snaps.empty()) break;
				size_t sz = snaps.back().size; size_t n = snaps.back().lives;
				if(vf_bool("explicit")) snaps.back().s.rollback();
				snaps.pop_back();
				live.resize(n);
				vf_assert(p.size() == sz, "the size is as it was at the snapshot");
				vf_cover("rollback");
				break; }
			case 7: { if(snaps.empty()) break; snaps.back().s.reset(); snaps.pop_back(); break; }
			case 9: {
				if(snaps.size() < 2) break;
				Snap& a = snaps[snaps.size() - 2]; Snap& b = snaps.back();
				b.s = std::move(a.s); a.s = std::move(b.s);
				snaps.pop_back();
				vf_cover("snapshot moved");
				break; }
			case 8: { size_t n = amount(); if(n > (size_t)P::maxSize) n = 10; if(n > 70000) n = 100; size_t b = p.size(); p.reserve(n); vf_assert(p.size() == b && p.capacity() >= b + n, "reserve"); break; }
			default:
				if(vf_bool("shrink")) { size_t b = p.size(); if(b == 0) drop(); p.shrink_to_fit(); vf_assert(p.size() == b, "shrinking releases no live memory"); }
				else { drop(); p.reset(); live.clear(); vf_assert(p.size() == 0 && p.chunks() <= 1, "a reset releases everything"); }
			}
			check();
		}
		while(!snaps.empty()) { size_t sz = snaps.back().size; live.resize(snaps.back().lives); snaps.pop_back(); vf_assert(p.size() == sz, "the size is as it was at the snapshot"); check(); }
	}
};
VC(spm_history16) { Hist<ScratchPad<> > h; h.run(); vf_cover("history"); }
VC(spm_history8) { Hist<ScratchPad<200> > h; h.run(); vf_cover("history"); }
VC(spm_history32) { Hist<ScratchPad<0xffffffffu> > h; h.run(); vf_cover("history"); }
#endif
