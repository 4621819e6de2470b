// C08: StoreJournal
#include "vf.h"
#include <stored>
#include <libstored/synchronizer.h>
#ifdef VF_PROVE
#	include "/repo/src/synchronizer.cpp"
#else
#	include <algorithm>
#	include <map>
#	include <string>
#	include <vector>
#endif
using namespace stored;
typedef StoreJournal J;

// ---------------------------------------------------------------- the tree of changes
// Two arbitrary objects of the journal are looked at, A and B.  Of all other objects, only their relation to these two is
// known.  That suffices to prove what holds for every object (and for every pair of objects).
#ifdef VF_PROVE
typedef J::ObjectInfo O;
typedef J::Changes V;
static bool g_limit; static u64 g_max; // not below any sequence number, when set
static u64 g_n;                        // number of objects
static J* g_j;
static u64 g_seq;                      // m_seq
struct Obs { u64 at; uint32_t key; };  // index (g_n when the key is absent), key
static Obs A, B;
static uint64_t m_a[2], m_b[2], m_x[2];// ObjectInfo of A, B and some other object
#define oA (*(O*)m_a)
#define oB (*(O*)m_b)
// every index is the pivot of exactly one range of the search tree: [LO,HI[
static bool g_grown; // the tree has got another element
#define LO(i) (g_grown ? vf_app1("lo2", i) : vf_app1("lo", i))
#define HI(i) (g_grown ? vf_app1("hi2", i) : vf_app1("hi", i))
static bool tree(u64 i)
{
	u64 l = LO(i), u = HI(i), p = l + (i - l) / 2, q = i + 1 + (u - i - 1) / 2;
	return (l <= i) & (i < u) & (u <= g_n) & ((l == i) | ((LO(p) == l) & (HI(p) == i))) & ((i + 1 == u) | ((LO(q) == i + 1) & (HI(q) == u)));
}
//! the range of j is on one side of i when it is in the range of i
static bool nested(u64 i, u64 j)
{
	u64 l = LO(i), u = HI(i), lj = LO(j), uj = HI(j);
	return (j < l) | (j >= u) | (j == i) | ((l <= lj) & (uj <= u) & ((j > i) | (uj <= i)) & ((j < i) | (lj > i)));
}
SPEC bool range(u64 l, u64 u) { u64 p = (u - l) / 2 + l; return (l <= u) & (u <= g_n) & ((l >= u) | ((LO(p) == l) & (HI(p) == u))); }
static bool within(u64 i, u64 l, u64 u) { return (i < g_n) & (l <= i) & (i < u); }
static u64 lng(uint16_t s) { return g_seq - (uint16_t)((uint16_t)g_seq - s); }
static u64 seqA() { return lng(oA.seq); }
static u64 seqB() { return lng(oB.seq); }
static bool g_highs = true; // the highest sequence numbers are right
static bool rel(u64 i, O const& o, Obs const& x, O const& ox)
{
	uint32_t k = o.key, kx = x.key; u64 at = x.at, n = g_n;
	return ((at < n) | (k != kx)) & ((at >= n) | (((i >= at) | (k < kx)) & ((i <= at) | (k > kx)) & ((i != at) | (k == kx))))
		& (!g_highs | !within(x.at, LO(i), HI(i)) | (lng(o.highest) >= lng(ox.seq))) & nested(i, at) & nested(at, i);
}
//! what is known about an object of the journal
static bool fact(u64 i, O const& o) { return tree(i) & (lng(o.seq) <= g_seq) & (!g_limit | (lng(o.seq) <= g_max)) & (lng(o.highest) <= g_seq) & rel(i, o, A, oA) & rel(i, o, B, oB); }
static u64 g_last = ~(u64)0; // the last element that was accessed
static O* elem(u64 i)
{
	g_last = i;
	vf_assert(i < g_n, "an element of the vector");
	if(i == A.at) { vf_assume(tree(i)); return &oA; }
	if(i == B.at) { vf_assume(tree(i)); return &oB; }
	vf_havoc_(m_x, sizeof(O), "other");
	vf_assume(fact(i, *(O*)m_x));
	return (O*)m_x;
}
// contract of std::vector<ObjectInfo>
#define VN "_ZNSt6vectorIN6stored12StoreJournal10ObjectInfoESaIS2_EE"
#define VK "_ZNKSt6vectorIN6stored12StoreJournal10ObjectInfoESaIS2_EE"
extern "C" size_t vfc___ZNKSt6vectorIN6stored12StoreJournal10ObjectInfoESaIS2_EE4sizeEv(V const*) { return g_n; }
extern "C" bool vfc___ZNKSt6vectorIN6stored12StoreJournal10ObjectInfoESaIS2_EE5emptyEv(V const*) { return g_n == 0; }
extern "C" O* vfc___ZNSt6vectorIN6stored12StoreJournal10ObjectInfoESaIS2_EEixEm(V*, size_t i) { return elem(i); }
extern "C" O const* vfc___ZNKSt6vectorIN6stored12StoreJournal10ObjectInfoESaIS2_EEixEm(V const*, size_t i) { return elem(i); }

//! the number of bytes needed for a size below 4 GiB (verified by jrn_keysize)
static uint8_t keysize(size_t n) { return n == 0 ? 0 : n < 0x100 ? 1 : n < 0x10000 ? 2 : n < 0x1000000 ? 3 : 4; }
extern "C" uint8_t vfc___ZN6stored12StoreJournal7keySizeEm(size_t n) { vf_assert(n < 0xffffffffu, "the size of a store"); return keysize(n); }
PVC(jrn_keysize)
{
	size_t n = vf_u64("n"); vf_assume(n < 0xffffffffu);
	vf_recursive_("_ZN6stored12StoreJournal7keySizeEm");
	vf_unroll_(6);
	vf_assert(J::keySize(n) == keysize(n), "bytes of a size");
	vf_cover("keysize");
}
// verified by jrn_seq
extern "C" u64 vfc___ZNK6stored12StoreJournal6toLongEt(J const* j, uint16_t s) { vf_assert(lng(s) <= g_seq, "a valid short sequence number"); return lng(s); }
extern "C" uint16_t vfc___ZNK6stored12StoreJournal7toShortEm(J const* j, u64 s) { vf_assert(s <= g_seq, "a sequence number of the past"); vf_assert(g_seq - s < 65536, "a sequence number within the window"); return (uint16_t)s; }
//! any journal
struct St {
	J* j;
	St()
	{
		vf_closed_(VN); vf_closed_(VK);
		vf_lean_(true); vf_merge_(true);
		vf_specfn_("lo", nullptr, 0); vf_specfn_("hi", nullptr, 0);
		vf_specfn_("lo2", nullptr, 0); vf_specfn_("hi2", nullptr, 0);
		g_j = j = new J("hash", vf_alloc(8, "store"), 8, nullptr);
		g_n = vf_u64("changes"); vf_assume(g_n < (1ull << 32));
		j->m_seq = g_seq = vf_u64("seq"); vf_assume((g_seq >= 1) & (g_seq < (1ull << 63)));
		j->m_partialSeq = vf_bool("partial");
		vf_havoc_(m_a, sizeof(O), "A"); vf_havoc_(m_b, sizeof(O), "B");
		A.key = vf_u32("key A"); B.key = vf_u32("key B");
		A.at = vf_u64("a"); B.at = vf_u64("b");
		vf_assume((A.at <= g_n) & (B.at <= g_n) & (A.key != B.key));
		vf_assume((A.at >= g_n) | fact(A.at, oA));
		vf_assume((B.at >= g_n) | fact(B.at, oB));
		vf_assume(range(0, g_n));
	}
};
SPEC bool inv_has(u64 l, u64 u) { return range(l, u) & ((A.at >= g_n) | ((l <= A.at) & (A.at < u))); }
PVC(jrn_has)
{
	St s;
	u64 since = vf_u64("since");
	vf_invariant_at2_(inv_has);
	bool r = s.j->hasChanged(A.key, since);
	if(A.at < g_n) vf_assert(r == (seqA() >= since), "an object has changed when its last change is at or after the given moment");
	else vf_assert(!r, "an object that is not in the journal has not changed");
	vf_cover("has");
}
PVC(jrn_any_changed)
{
	St s;
	u64 since = vf_u64("since");
	bool r = s.j->hasChanged(since);
	if(A.at < g_n && seqA() >= since) vf_assert(r, "no change is missed");
	if(!g_n) vf_assert(!r, "an empty journal has no changes");
	vf_cover("any");
}
PVC(jrn_seq)
{
	St s;
	vf_recursive_("_ZNK6stored12StoreJournal6toLongEt"); vf_recursive_("_ZNK6stored12StoreJournal7toShortEm");
	u64 x = vf_u64("x");
	vf_assume((x <= g_seq) & (g_seq - x < 65536));
	vf_assert(s.j->toLong(s.j->toShort(x)) == x, "a sequence number within the window is kept");
	uint16_t y = vf_u16("y");
	vf_assume(lng(y) <= g_seq);
	vf_assert(s.j->toLong(y) == lng(y) && s.j->toShort(lng(y)) == y, "short sequence numbers are within the window");
	vf_cover("seq");
}

// ---- update of A; what happens to any other object is seen at B
static Obs T; // the object that is updated
static bool g_sorted;
static u64 g_l, g_u, g_useq; static uint32_t g_ulen;
static uint64_t m_pa[2], m_pb[2]; // before
static bool updated(u64 i, O const& o, O const& c)
{
	bool in = within(T.at, g_l, g_u), me = in & (i == T.at);
	return (c.key == o.key) & (me | ((c.seq == o.seq) & (c.len == o.len))) & (!me | ((c.seq == (uint16_t)g_useq) & (c.len == g_ulen)))
		& ((c.highest == o.highest) | ((i >= g_l) & (i < g_u) & (c.highest == (uint16_t)g_useq) & (g_useq >= lng(o.highest))))
		& (!in | (i < g_l) | (i >= g_u) | !within(T.at, LO(i), HI(i)) | (lng(c.highest) >= g_useq));
}
static bool updatedAB() { return ((A.at >= g_n) | updated(A.at, *(O*)m_pa, oA)) & ((B.at >= g_n) | updated(B.at, *(O*)m_pb, oB)); }
static void old() { memcpy(m_pa, m_a, sizeof(O)); memcpy(m_pb, m_b, sizeof(O)); }
static bool g_keep; // an update of the object that was accessed last
static bool g_all; // the contract is for an update from the top
extern "C" bool vfc___ZN6stored12StoreJournal6updateEjmmmm(J* j, uint32_t key, size_t len, u64 seq, size_t l, size_t u)
{
	u64 ol = g_l, ou = g_u; uint64_t pa[2], pb[2];
	memcpy(pa, m_pa, 16); memcpy(pb, m_pb, 16);
	vf_assert(j == g_j, "the same journal");
	if(g_all) { // called by others
		vf_assert(l == 0 && u == g_n, "the whole tree");
		vf_assert(seq <= g_seq && g_seq - seq < 65536, "the sequence number is within the window");
		g_useq = seq; g_ulen = (uint32_t)len;
		if(g_keep) { T.at = g_last; T.key = key; vf_assert(((g_last == A.at) & (key == A.key)) | ((g_last == B.at) & (key == B.key)) | ((g_last != A.at) & (g_last != B.at) & (key == ((O*)m_x)->key)), "the key of the last object"); }
		else vf_assert(key == T.key, "the same object");
	} else {
		vf_assert(key == T.key && seq == g_useq && (uint32_t)len == g_ulen, "the same object");
		vf_assert(range(l, u), "a part of the tree");
		vf_assert(l >= g_l && u <= g_u && u - l < g_u - g_l, "a smaller part");
	}
	g_l = l; g_u = u; old();
	vf_havoc_(m_a, sizeof(O), "A updated");
	vf_havoc_(m_b, sizeof(O), "B updated");
	vf_assume(updatedAB());
	bool r = within(T.at, l, u);
	g_l = ol; g_u = ou; memcpy(m_pa, pa, 16); memcpy(m_pb, pb, 16);
	return r;
}
static bool high(u64 i, O const& o, Obs const& x, O const& ox) { return !within(x.at, LO(i), HI(i)) | (lng(o.highest) >= lng(ox.seq)); }
static bool highs()
{
	bool a = A.at < g_n, b = B.at < g_n;
	return (!a | (lng(oA.highest) >= seqA())) & (!b | (lng(oB.highest) >= seqB())) & (!a | !b | (high(A.at, oA, B, oB) & high(B.at, oB, A, oA)));
}
PVC(jrn_update)
{
	g_highs = false;
	St s;
	vf_recursive_("_ZN6stored12StoreJournal6updateEjmmmm");
	g_l = vf_u64("lower"); g_u = vf_u64("upper");
	vf_assume(range(g_l, g_u));
	g_useq = vf_u64("to"); g_ulen = vf_u32("len");
	vf_assume(g_useq <= g_seq && g_seq - g_useq < 65536);
	old(); T = A;
	bool hi = highs();
	bool r = s.j->update(A.key, g_ulen, g_useq, g_l, g_u);
	vf_assert(r == within(A.at, g_l, g_u), "an object is found when it is there");
	if(A.at < g_n) vf_assert(updated(A.at, *(O*)m_pa, oA), "the object gets the sequence number and length");
	if(B.at < g_n) vf_assert(updated(B.at, *(O*)m_pb, oB), "other objects only get the sequence number when they are higher in the tree");
	if(g_l == 0 && g_u == g_n) vf_assert(!hi | highs(), "every part of the tree knows its highest sequence number");
	vf_cover("update");
}

// ---- regeneration of the tree
static bool part(u64 l, u64 u) // this part of the tree is right
{
	bool a = within(A.at, l, u), b = within(B.at, l, u);
	return (!a | (high(A.at, oA, A, oA) & (lng(oA.highest) <= g_max))) & (!b | (high(B.at, oB, B, oB) & (lng(oB.highest) <= g_max)))
		& (!a | !b | (high(A.at, oA, B, oB) & high(B.at, oB, A, oA)));
}
static bool same(O const& o, O const& c) { return (o.key == c.key) & (o.len == c.len) & (o.seq == c.seq); }
static bool regen(u64 l, u64 u, u64 r)
{
	O const& pa = *(O*)m_pa; O const& pb = *(O*)m_pb;
	return part(l, u) & same(pa, oA) & same(pb, oB) & (within(A.at, l, u) | (pa.highest == oA.highest)) & (within(B.at, l, u) | (pb.highest == oB.highest))
		& (r <= g_max) & (!within(A.at, l, u) | (r >= seqA())) & (!within(B.at, l, u) | (r >= seqB())) & ((l < u) ? g_seq - r < 65536 : r == 0);
}
extern "C" u64 vfc___ZN6stored12StoreJournal10regenerateEmm(J* j, size_t l, size_t u)
{
	vf_assert(j == g_j, "the same journal");
	if(g_all) vf_assert(g_sorted && l == 0 && u == g_n, "the whole tree, in order");
	else {
		vf_assert(range(l, u), "a part of the tree");
		vf_assert(l >= g_l && u <= g_u && u - l < g_u - g_l, "a smaller part");
	}
	uint64_t pa[2], pb[2];
	memcpy(pa, m_pa, 16); memcpy(pb, m_pb, 16);
	old();
	vf_havoc_(m_a, sizeof(O), "A regenerated");
	vf_havoc_(m_b, sizeof(O), "B regenerated");
	u64 r = vf_u64("highest");
	vf_assume(regen(l, u, r));
	memcpy(m_pa, pa, 16); memcpy(m_pb, pb, 16);
	return r;
}
PVC(jrn_regenerate)
{
	g_highs = false;
	St s;
	vf_recursive_("_ZN6stored12StoreJournal10regenerateEmm");
	g_l = vf_u64("lower"); g_u = vf_u64("upper");
	vf_assume(range(g_l, g_u));
	g_max = vf_u64("max"); vf_assume(g_max <= g_seq);
	g_limit = true;
	vf_assume((seqA() <= g_max) & (seqB() <= g_max));
	old();
	u64 r = s.j->regenerate(g_l, g_u);
	O const& pa = *(O*)m_pa; O const& pb = *(O*)m_pb;
	vf_assert(same(pa, oA) & same(pb, oB), "the objects keep their data");
	vf_assert((within(A.at, g_l, g_u) | (pa.highest == oA.highest)) & (within(B.at, g_l, g_u) | (pb.highest == oB.highest)), "other parts of the tree are left alone");
	vf_assert(g_l < g_u ? g_seq - r < 65536 : r == 0, "the highest sequence number is within the window");
	vf_assert(r <= g_max, "the highest sequence number is one of an object");
	if(within(A.at, g_l, g_u)) { vf_assert(r >= seqA(), "no sequence number is higher"); vf_assert(lng(oA.highest) <= g_max, "the highest sequence number is one of an object"); }
	if(within(A.at, g_l, g_u)) vf_assert(lng(oA.highest) >= seqA(), "an object is not newer than what its part of the tree knows");
	if(within(A.at, g_l, g_u) & within(B.at, g_l, g_u)) vf_assert(high(A.at, oA, B, oB), "every part of the tree knows its highest sequence number");
	vf_cover("regenerate");
}

// ---- a change
static O* vbegin() { return (O*)(uintptr_t)0x1000; }
static int g_adds;
extern "C" O* vfc___ZNSt6vectorIN6stored12StoreJournal10ObjectInfoESaIS2_EE5beginEv(V*) { return vbegin(); }
extern "C" O* vfc___ZNSt6vectorIN6stored12StoreJournal10ObjectInfoESaIS2_EE3endEv(V*) { return vbegin() + g_n; }
extern "C" void vfc___ZSt4sortIN9__gnu_cxx17__normal_iteratorIPN6stored12StoreJournal10ObjectInfoESt6vectorIS4_SaIS4_EEEENS3_20ObjectInfoComparatorEEvT_SB_T0_(O* first, O* last)
{
	vf_assert(first == vbegin() && last == vbegin() + g_n, "all objects are sorted");
	g_grown = g_sorted = true; g_last = ~(u64)0;
	bool a = A.at < g_n, b = B.at < g_n;
	A.at = a ? vf_index(g_n, "a sorted") : g_n; B.at = b ? vf_index(g_n, "b sorted") : g_n;
	vf_assume(!a | !b | ((A.at < B.at) == (oA.key < oB.key)));
	vf_assume((A.at != B.at) | !a);
	vf_assume((!a | tree(A.at)) & (!b | tree(B.at)) & (!a | !b | (nested(A.at, B.at) & nested(B.at, A.at)))); // the tree of the new number of objects
}
extern "C" O* vfc___ZNSt6vectorIN6stored12StoreJournal10ObjectInfoESaIS2_EE12emplace_backIJRjjtEEERS2_DpOT_(V*, uint32_t* key, uint32_t* len, uint16_t* seq)
{
	vf_assert(*key == A.key && A.at >= g_n, "an object is added once");
	vf_assert(g_adds++ == 0 && !g_sorted, "before the tree is regenerated");
	bool b = B.at < g_n;
	new(m_a) O(*key, *len, *seq);
	A.at = g_n; g_n++; if(!b) B.at = g_n;
	return &oA;
}
PVC(jrn_changed)
{
	g_highs = false;
	St s;
	old(); T = A; g_all = true; g_max = g_seq;
	vf_assume(highs());
	bool ins = vf_bool("insert"), there = A.at < g_n, bthere = B.at < g_n; u64 n = g_n;
	uint32_t len = vf_u32("len");
	s.j->changed(A.key, len, ins);
	vf_assert(s.j->m_partialSeq && s.j->m_seq == g_seq, "there is something to send");
	O const& pb = *(O*)m_pb;
	if(there | ins) vf_assert(A.at < g_n && seqA() == g_seq && oA.len == len && oA.key == A.key, "the change is recorded now");
	else vf_assert(A.at == g_n, "an unknown object is not recorded");
	vf_assert(g_n == n + (ins & !there ? 1 : 0) && g_adds == (ins & !there ? 1 : 0) && g_sorted == (g_adds == 1), "a new object is added, and the tree is regenerated");
	vf_assert(bthere == (B.at < g_n), "other objects stay");
	if(bthere) vf_assert(same(pb, oB), "other objects keep their data");
	if(bthere & (A.at < g_n)) vf_assert((A.at < B.at) == (A.key < B.key) && A.at != B.at, "the objects are sorted");
	vf_assert(highs(), "every part of the tree knows its highest sequence number");
	vf_cover("changed");
}
PVC(jrn_order)
{
	St s;
	vf_assume((A.at < g_n) & (B.at < g_n));
	vf_assert(J::ObjectInfoComparator()(oA, oB) == (oA.key < oB.key), "the order of the objects");
	vf_cover("order");
}

// ---- iteration
static u64 g_since; static int g_cntA, g_cntB;
static bool chA() { return seqA() >= g_since; }
static bool chB() { return seqB() >= g_since; }
static int before(Obs const& x, u64 l, bool ch) { return (x.at < g_n) & (x.at < l) & ch ? 1 : 0; }
static bool reported(u64 l) { return ((A.at >= g_n) | (g_cntA == before(A, l, chA()))) & ((B.at >= g_n) | (g_cntB == before(B, l, chB()))); }
static void report(uint32_t key)
{
	if(key == A.key && A.at < g_n) { vf_assert(g_last == A.at && chA(), "only what has changed"); vf_assert(reported(A.at), "once, in order"); g_cntA++; }
	else if(key == B.key && B.at < g_n) { vf_assert(g_last == B.at && chB(), "only what has changed"); vf_assert(reported(B.at), "once, in order"); g_cntB++; }
	else vf_assert(((O*)m_x)->key == key && lng(((O*)m_x)->seq) >= g_since, "only what has changed");
}
static void iterated(u64 l, u64 u)
{
	vf_assert(range(l, u), "a part of the tree");
	vf_assert(l >= g_l && u <= g_u && u - l < g_u - g_l, "a smaller part");
	vf_assert(reported(l), "in order");
	g_cntA = before(A, u, chA()); g_cntB = before(B, u, chB());
}
static int g_arg;
static void on_change(J::Key key, void* arg) { vf_assert(arg == &g_arg, "the argument of the callback"); report(key); }
extern "C" void vfc___ZNK6stored12StoreJournal14iterateChangedEmPFvjPvES1_mm(J const* j, u64 since, J::IterateChangedCallback* cb, void* arg, size_t l, size_t u)
{
	vf_assert(j == g_j && since == g_since && cb == &on_change && arg == &g_arg, "the same iteration");
	u64 x = g_last; iterated(l, u); g_last = x;
}
static void iter_state()
{
	g_since = vf_u64("since");
	g_l = vf_u64("lower"); g_u = vf_u64("upper");
	vf_assume(range(g_l, g_u));
	g_cntA = before(A, g_l, chA()); g_cntB = before(B, g_l, chB());
}
PVC(jrn_iterate)
{
	St s;
	vf_recursive_("_ZNK6stored12StoreJournal14iterateChangedEmPFvjPvES1_mm");
	iter_state();
	s.j->iterateChanged(g_since, &on_change, &g_arg, g_l, g_u);
	vf_assert(reported(g_u), "every object that has changed is reported once");
	vf_cover("iterate");
}
static uint8_t* g_out;
static int g_outs;
extern "C" void vfc___ZN6stored12StoreJournal12encodeUpdateERPhRNS0_10ObjectInfoE(J* j, uint8_t** buf, O* o)
{
	vf_assert(j == g_j && *buf == g_out, "updates follow each other");
	vf_assert(o == (g_last == A.at ? &oA : g_last == B.at ? &oB : (O*)m_x), "an object of the journal");
	report(o->key);
	*buf = g_out = g_out + vf_index(1000, "size of the update");
}
extern "C" void vfc___ZN6stored12StoreJournal13encodeUpdatesERPhmmm(J* j, uint8_t** buf, u64 since, size_t l, size_t u)
{
	vf_assert(j == g_j && since == g_since && *buf == g_out, "the same iteration");
	u64 x = g_last; iterated(l, u); g_last = x;
	*buf = g_out = g_out + vf_index(1000, "size of the updates");
}
PVC(jrn_encode)
{
	St s;
	vf_recursive_("_ZN6stored12StoreJournal13encodeUpdatesERPhmmm");
	iter_state();
	uint8_t* buf = g_out = (uint8_t*)vf_alloc(100000, "message");
	s.j->encodeUpdates(buf, g_since, g_l, g_u);
	vf_assert(reported(g_u), "every object that has changed is encoded once");
	vf_assert(buf == g_out, "the end of the message");
	vf_cover("encode");
}

// ---- a new period
static u64 g_lower0; // m_seqLower at the start
static uint16_t g_seqA0; static uint32_t g_len0; static bool g_bumped;
#define SAFE (65536u - 16384u)
static u64 lngA0() { return lng(g_seqA0); }
SPEC bool inv_bump(u64 i, u64 sl)
{
	u64 a = seqA(), a0 = lngA0(), n = g_n; bool in = A.at < n, done = i > A.at, far = g_seq - a0 > SAFE;
	return (i <= n) & (sl <= g_seq) & (g_seq - sl <= SAFE) & (!in | (a == (done & far ? g_seq - 32768 : a0))) & (!in | !done | (a >= sl)) & (!in | (oA.len == g_len0))
		& (g_j->m_seqLower == g_seq - 32768) & (g_j->m_seq == g_seq) & !g_j->m_partialSeq & g_bumped;
}
SPEC bool inv_bump1() { return (A.at >= g_n) | ((oA.key == A.key) & (lng(oA.seq) <= g_seq) & (lng(oA.highest) <= g_seq) & (lng(oA.highest) >= lng(oA.seq))); }
PVC(jrn_bump)
{
	g_highs = false;
	St s;
	bool force = vf_bool("force"), partial = s.j->m_partialSeq;
	if(!force & !partial) {
		s.j->m_seqLower = vf_u64("oldest");
		memcpy(m_pa, m_a, 16);
		u64 l = s.j->m_seqLower;
		vf_assert(s.j->bumpSeq() == g_seq && s.j->m_seq == g_seq && s.j->m_seqLower == l && !s.j->m_partialSeq, "nothing has changed, so no new period");
		vf_assert(!memcmp(m_pa, m_a, 16), "nothing is modified");
		vf_cover("same period");
		return;
	}
	g_lower0 = s.j->m_seqLower = vf_u64("oldest");
	vf_assume((g_lower0 <= g_seq) & (g_seq - g_lower0 <= SAFE));
	// every sequence number is at or after m_seqLower, so it is understood in the same way in the next period
	vf_assume(B.at >= g_n); // update() keeps the relation between objects
	vf_assume((A.at >= g_n) | ((lng(oA.seq) >= g_lower0) & (lng(oA.highest) >= lng(oA.seq))));
	u64 a = seqA(), h = lng(oA.highest);
	g_seqA0 = oA.seq; g_len0 = oA.len;
	g_seq++;
	vf_assert((A.at >= g_n) | ((seqA() == a) & (h == lng(oA.highest))), "sequence numbers are the same in the next period");
	g_bumped = true; g_all = true; g_keep = true;
	vf_invariant_at2_(inv_bump); vf_invariant_(inv_bump1);
	u64 r = s.j->bumpSeq(force);
	vf_assert(r == g_seq && s.j->m_seq == g_seq && !s.j->m_partialSeq, "the next period");
	vf_assert((s.j->m_seqLower <= g_seq) & (g_seq - s.j->m_seqLower <= SAFE), "the window");
	if(A.at < g_n) {
		bool far = g_seq - a > SAFE;
		vf_assert(far | (seqA() == a), "the moment of a change is kept");
		vf_assert(!far | ((seqA() > a) & (g_seq - seqA() >= 32768)), "the moment of an old change is moved, but it stays an old change");
		vf_assert(seqA() >= s.j->m_seqLower, "no object is older than the lower bound");
		vf_assert(oA.len == g_len0, "the length is kept");
		vf_assert(inv_bump1(), "an object is not newer than what its part of the tree knows");
	}
	vf_cover("bump");
}
#endif

// ---------------------------------------------------------------- histories
#ifndef VF_PROVE
struct Obj { uint32_t off, len; u64 seq; bool known; };
static std::vector<std::pair<uint32_t, uint32_t> >* g_hooked;
struct Cb : public J::StoreCallback {
	char* base; std::vector<std::pair<uint32_t, uint32_t> > ch; int all; bool on;
	Cb() : base(), all(), on(true) {}
	virtual void hookEntryRO() noexcept override {}
	virtual void hookExitRO() noexcept override {}
	virtual void hookChanged() noexcept override { all++; }
	virtual void hookEntryRO(Type::type, void*, size_t) noexcept override {}
	virtual void hookExitRO(Type::type, void*, size_t) noexcept override {}
	virtual void hookChanged(Type::type, void* b, size_t n) noexcept override { ch.push_back(std::make_pair((uint32_t)((char*)b - base), (uint32_t)n)); }
	virtual bool doHookEntryRO() noexcept override { return on; }
	virtual bool doHookExitRO() noexcept override { return on; }
	virtual bool doHookChanged() noexcept override { return on; }
	virtual bool doHooks() noexcept override { return on; }
};
struct Sink : public ProtocolLayer { std::string s; int lasts; Sink() : lasts() {} virtual void encode(void const* b, size_t n, bool last) override { s.append((char const*)b, n); lasts += last; } using ProtocolLayer::encode; };
static size_t ksize(size_t n) { return n < 0x100 ? 1 : n < 0x10000 ? 2 : 4; }
static char const* const hash40 = "0123456789abcdef0123456789abcdef01234567";

struct Model {
	std::vector<Obj> o; char* buf; size_t n; Cb cb; J* j; bool partial; u64 seq, unrec; //!< unrec: period of the last write that was not recorded
	Model(size_t n_, bool cbs) : buf((char*)malloc(n_ ? n_ : 1)), n(n_), partial(false), seq(1), unrec(0) { memset(buf, 0, n); cb.base = buf; cb.on = cbs; j = new J(hash40, buf, n, &cb); }
	~Model() { delete j; free(buf); }
	//! \p since is exact as long as it is within the window for cleaning
	void check(u64 since)
	{
		bool any = false, surely = seq - since < 32768u;
		for(size_t i = 0; i < o.size(); i++) {
			bool e = o[i].known && o[i].seq >= since;
			bool r = j->hasChanged(o[i].off, since);
			if(e) vf_assert(r, "a change is not lost");
			if(!e && (!o[i].known || surely || since > seq)) vf_assert(!r, "no change is invented");
			any = any || e;
		}
		if(any) vf_assert(j->hasChanged(since), "a change is not lost, any");
		if(!any && (surely || since > seq) && unrec < since) vf_assert(!j->hasChanged(since), "no change is invented, any");
		std::vector<uint32_t> l;
		j->iterateChanged(since, [&](J::Key k) { l.push_back(k); });
		for(size_t i = 1; i < l.size(); i++) vf_assert(l[i - 1] < l[i], "every object is listed once");
		for(size_t i = 0; i < o.size(); i++) {
			bool r = std::find(l.begin(), l.end(), o[i].off) != l.end();
			vf_assert(r == j->hasChanged(o[i].off, since), "the list has what changed");
		}
		for(size_t i = 0; i < l.size(); i++) { bool f = false; for(size_t k = 0; k < o.size(); k++) f = f || o[k].off == l[i]; vf_assert(f, "the list only has objects that were written"); }
		vf_assert(j->seq() == seq, "the sequence number");
	}
	void bump() { if(partial) { seq++; partial = false; } }
};
static void layout(Model& m)
{
	size_t at = 0, cnt = vf_u8("objects") % 40 + 1;
	for(size_t i = 0; i < cnt && at < m.n; i++) {
		uint8_t x = vf_u8("size");
		size_t len = x & 0x80 ? (size_t)(x & 0x7f) : (size_t)1 << (x % 4);
		if(len == 0) len = 1;
		if(len > m.n - at) len = m.n - at;
		Obj o = {(uint32_t)at, (uint32_t)len, 0, false};
		m.o.push_back(o);
		at += len + ((x & 0x40) ? (m.n > 1000 ? m.n / 30 : 3) : 0);
	}
}
VC(jrn_history)
{
	static size_t const sizes[] = {0, 1, 8, 100, 255, 256, 300, 1000, 65535, 65536, 70000};
	size_t n = sizes[vf_u8("store size") % 11];
	bool cbs = vf_bool("hooks");
	Model m(n, cbs), p(n, vf_bool("hooks of the peer"));
	vf_assert(m.j->seq() == 1 && !m.j->hasChanged(0), "a new journal is empty");
	layout(m);
	p.o = m.o;
	size_t ks = ksize(n);
	int ops = 0;
	std::vector<u64> seen; seen.push_back(1);
	while(ops++ < 40 && vf_more("op")) {
		switch(vf_u8("what") % 8) {
		case 0: case 1: case 2: { // write
			if(m.o.empty()) break;
			Obj& o = m.o[vf_u8("object") % m.o.size()];
			for(size_t i = 0; i < o.len; i++) m.buf[o.off + i] = (char)vf_u8("data");
			bool ins = vf_u8("insert") % 8 != 0;
			vf_note("write");
			m.j->changed(o.off, o.len, ins);
			m.partial = true;
			if(ins || o.known) { o.known = true; o.seq = m.seq; } else m.unrec = m.seq;
			break;
		}
		case 3: { // a new period
			vf_note("bump");
			u64 s = m.j->bumpSeq(); m.bump();
			vf_assert(s == m.seq, "bumping gives the new sequence number");
			seen.push_back(s);
			break;
		}
		case 4: { // time passes
			if(m.o.empty()) break;
			size_t i = vf_u8("object") % m.o.size();
			uint16_t k = vf_u16("many");
			u64 x = k & 0x8000 ? (u64)(k & 0x7fff) * 2u : (u64)(k & 0xff);
			if(vf_isnative() && x > 20000 && ops > 10) x = 20000;
			for(u64 c = 0; c < x; c++) { m.j->changed(m.o[i].off, m.o[i].len); m.o[i].known = true; m.o[i].seq = m.seq; m.partial = true; m.bump(); m.j->bumpSeq(); }
			vf_note("many");
			break;
		}
		case 5: { // send updates
			u64 back = vf_u8("back");
			u64 since = back >= seen.size() ? (m.seq > back ? m.seq - back : 1) : seen[seen.size() - 1 - back];
			m.check(since);
			std::vector<std::pair<uint32_t, uint32_t> > e;
			size_t total = 0;
			for(size_t i = 0; i < m.o.size(); i++) if(m.j->hasChanged(m.o[i].off, since)) { e.push_back(std::make_pair(m.o[i].off, m.o[i].len)); total += 2 * ks + m.o[i].len; }
			uint8_t* msg = (uint8_t*)malloc(total + 8);
			size_t pre = vf_u8("align") % 4 + 3;
			uint8_t* q = msg;
			vf_note("encode");
			u64 s = m.j->encodeUpdates(q, since); m.bump();
			vf_assert(s == m.seq, "encoding starts a new period");
			seen.push_back(s);
			vf_assert((size_t)(q - msg) == total, "every changed object is encoded once");
			size_t at = 0;
			for(size_t i = 0; i < e.size(); i++) {
				u64 k = 0, l = 0;
				for(size_t b = 0; b < ks; b++) k |= (u64)msg[at + b] << (8 * b);
				for(size_t b = 0; b < ks; b++) l |= (u64)msg[at + ks + b] << (8 * b);
				vf_assert(k == e[i].first && l == e[i].second, "key and length of the object");
				vf_assert(memcmp(msg + at + 2 * ks, m.buf + k, l) == 0, "the value of the object");
				at += 2 * ks + l;
			}
			// to the peer
			bool all = vf_u8("recordAll") % 4 != 0;
			uint8_t* in = (uint8_t*)malloc(pre + total + 1);
			memcpy(in + pre, msg, total);
			std::string expect(p.buf, n);
			for(size_t i = 0; i < e.size(); i++) expect.replace(e[i].first, e[i].second, m.buf + e[i].first, e[i].second);
			void* b = in + pre; size_t len = total;
			p.cb.ch.clear();
			vf_note("decode");
			u64 before = p.seq;
			u64 r = p.j->decodeUpdates(b, len, all, in);
			if(!e.empty()) p.partial = true;
			for(size_t i = 0; i < e.size(); i++) for(size_t k = 0; k < p.o.size(); k++) if(p.o[k].off == e[i].first && (all || p.o[k].known)) { p.o[k].known = true; p.o[k].seq = before; } else p.unrec = before;
			p.bump();
			vf_assert(r == p.seq && r, "the message is accepted");
			vf_assert(len == 0, "the message is decoded completely");
			vf_assert(n == 0 || expect == std::string(p.buf, n), "exactly these values are applied");
			if(p.cb.on) vf_assert(p.cb.ch == e, "the hooks are told about every object");
			p.check(before); p.check(before + 1);
			free(in); free(msg);
			break;
		}
		case 6: { // clean
			u64 d = vf_u16("age");
			u64 oldest = vf_u8("default") % 2 ? 0 : m.seq > d ? m.seq - d : 1;
			vf_note("clean");
			m.j->clean(oldest);
			if(!oldest) oldest = m.seq > 32768 ? m.seq - 32768 : 0;
			for(size_t i = 0; i < m.o.size(); i++) if(m.o[i].known && m.o[i].seq < oldest) { if(m.j->hasChanged(m.o[i].off, 1)) vf_assert(m.seq - m.o[i].seq > 40000, "old changes are removed"); else m.o[i].known = false; }
			m.check(oldest > m.seq - 32767 || m.seq < 32768 ? oldest : m.seq - 32767);
			break;
		}
		case 7: { // full buffer
			Sink s;
			u64 r = m.j->encodeBuffer(s, true); m.bump();
			vf_assert(r == m.seq && s.lasts == 1 && s.s == std::string(m.buf, n), "the full buffer is encoded");
			char dummy; void* b = n ? &s.s[0] : &dummy; size_t len = s.s.size();
			p.cb.all = 0;
			u64 before = p.seq;
			r = p.j->decodeBuffer(b, len);
			p.partial = true; p.bump();
			for(size_t i = 0; i < p.o.size(); i++) if(p.o[i].known) p.o[i].seq = before;
			vf_assert(r == p.seq && len == 0 && !memcmp(p.buf, m.buf, n), "the full buffer is decoded");
			vf_assert(p.cb.all == (p.cb.on ? 1 : 0), "the hooks are told");
			p.check(before); p.check(before + 1);
			break;
		}
		}
		u64 age = vf_u8("age");
		m.check(m.seq > age ? m.seq - age : 1);
	}
	vf_cover("history");
}

// any message
VC(jrn_any)
{
	static size_t const sizes[] = {0, 1, 8, 100, 255, 256, 300, 1000, 65535, 65536, 70000};
	size_t n = sizes[vf_u8("store size") % 11];
	Model m(n, vf_bool("hooks"));
	size_t ks = ksize(n);
	std::string s;
	for(int i = 0; i < 6 && vf_more("update"); i++) {
		u64 k = vf_u32("key"), l = vf_u8("len kind") & 1 ? vf_u32("len") : vf_u8("len");
		if(n && vf_bool("in")) k %= n;
		for(size_t b = 0; b < ks; b++) s += (char)(k >> (8 * b));
		for(size_t b = 0; b < ks; b++) s += (char)(l >> (8 * b));
		for(u64 b = 0; b < l && b < 300; b++) s += (char)(b + k);
	}
	if(vf_bool("cut") && !s.empty()) s.resize(s.size() - vf_u8("cut") % s.size());
	// model
	std::string expect(m.buf, n); bool ok = true; size_t at = 0;
	std::vector<std::pair<uint32_t, uint32_t> > e;
	while(at < s.size()) {
		if(s.size() - at < 2 * ks) { ok = false; break; }
		u64 k = 0, l = 0;
		for(size_t b = 0; b < ks; b++) k |= (u64)(uint8_t)s[at + b] << (8 * b);
		for(size_t b = 0; b < ks; b++) l |= (u64)(uint8_t)s[at + ks + b] << (8 * b);
		at += 2 * ks;
		if(k + l > n || s.size() - at < l) { ok = false; break; }
		expect.replace(k, l, s, at, l);
		e.push_back(std::make_pair((uint32_t)k, (uint32_t)l));
		at += l;
	}
	size_t pre = vf_u8("align") % 4 + 3;
	uint8_t* in = (uint8_t*)malloc(pre + s.size());
	memcpy(in + pre, s.data(), s.size());
	void* b = in + pre; size_t len = s.size();
	bool all = vf_bool("all");
	u64 r = m.j->decodeUpdates(b, len, all, in);
	vf_assert((r != 0) == ok, "a malformed message is rejected");
	vf_assert(n == 0 || expect == std::string(m.buf, n), "exactly the values of the message are applied");
	if(m.cb.on) vf_assert(m.cb.ch == e, "the hooks are told about every object");
	for(size_t i = 0; i < e.size(); i++) vf_assert(m.j->hasChanged(e[i].first, 1) == all, "the objects are marked as changed");
	m.j->iterateChanged(0, [&](J::Key k) { bool f = false; for(size_t i = 0; i < e.size(); i++) f = f || e[i].first == k; vf_assert(f, "nothing else is marked"); });
	free(in);
	if(ok) vf_cover("accepted"); else vf_cover("rejected");
}
#endif
