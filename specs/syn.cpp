// C09: Synchronizer and SyncConnection: histories of two or three peers (native only)
#include "vf.h"
#include <stored>
#include <libstored/synchronizer.h>
#include <deque>
#include <string>
#include <vector>
#include <string.h>
using namespace stored;

struct Wire : public ProtocolLayer {
	std::string cur; std::deque<std::string> frames; size_t updates, total; std::vector<std::string> seen;
	Wire() : updates(), total() {}
	virtual void encode(void const* b, size_t n, bool last) override
	{
		cur.append((char const*)b, n);
		if(last) { frames.push_back(cur); total++; updates += !cur.empty() && cur[0] == 'u'; cur.clear(); }
	}
	using ProtocolLayer::encode;
	void get(std::string const& f)
	{
		char* p = (char*)malloc(f.size() ? f.size() : 1);
		memcpy(p, f.data(), f.size());
		decode(p, f.size());
		free(p);
	}
};
// objects of a store
struct Obj { uint32_t at, len; };
static Obj const g_objs[] = {{0, 4}, {4, 2}, {6, 1}, {8, 8}, {16, 4}, {20, 12}, {32, 1}, {290, 10}};
static char const* const g_names[3] = {"0123456789abcdef", "second store", "third"};
struct Node {
	Synchronizer syn; std::vector<char*> buf; std::vector<StoreJournal*> j; size_t size; unsigned objs;
	Node(int n, bool large) : size(large ? 300 : 40), objs(large ? 8 : 7)
	{
		for(int i = 0; i < n; i++) {
			buf.push_back((char*)calloc(size, 1));
			j.push_back(new StoreJournal(g_names[i], buf[i], size));
			syn.m_storeMap.insert(std::make_pair((char const*)g_names[i], j[i]));
		}
		syn.m_encodeBuffer.resize(2 * sizeof(uint32_t) * 8 + size + 1 + 32);
	}
	~Node()
	{
		while(!syn.m_connections.empty()) { ProtocolLayer* c = *syn.m_connections.begin(); syn.m_connections.erase(c); delete c; }
		for(size_t i = 0; i < j.size(); i++) { delete j[i]; free(buf[i]); }
	}
	void source(int s, Wire& w) { SyncConnection* c = syn.toConnection(w); vf_assert(c != nullptr, "connected"); c->source(*j[(size_t)s]); }
	void write(int s)
	{
		Obj const& o = g_objs[vf_u8("object") % objs];
		char* p = buf[(size_t)s] + o.at; uint8_t v = vf_u8("value");
		for(uint32_t k = 0; k < o.len; k++) p[k] = (char)(v + 3 * k);
		j[(size_t)s]->changed(o.at, o.len);
		vf_note("write");
	}
	void process(Wire& w, int s)
	{
		switch(vf_u8("how") % 4) {
		case 0: syn.process(); break;
		case 1: syn.process(*j[(size_t)s]); break;
		case 2: syn.process(w); break;
		default: syn.process(w, *j[(size_t)s]);
		}
	}
	std::string content(int s) { return std::string(buf[(size_t)s], size); }
};
//! one step of the channel between w[0] and w[1]
static bool deliver(Wire* w, int k)
{
	if(w[k].frames.empty()) return false;
	std::string f = w[k].frames.front(); w[k].frames.pop_front();
	vf_note("deliver");
	w[1 - k].get(f);
	vf_assert(w[0].cur.empty() && w[1].cur.empty(), "messages are complete");
	return true;
}
static void drain(Node** n, Wire* w, bool process = true)
{
	for(int r = 0;; r++) {
		bool busy = false;
		while(!w[0].frames.empty() || !w[1].frames.empty()) { int k = w[0].frames.empty() ? 1 : w[1].frames.empty() ? 0 : vf_u8("direction") & 1; deliver(w, k); vf_assert(w[0].total + w[1].total < 100000, "the channel gets quiet"); }
		if(process) { n[0]->syn.process(); n[1]->syn.process(); }
		busy = !w[0].frames.empty() || !w[1].frames.empty();
		if(!busy) break;
		vf_assert(r < 20, "processing gets quiet");
	}
}
static void equal(Node** n, int stores, char const* what) { for(int s = 0; s < stores; s++) vf_assert(n[0]->content(s) == n[1]->content(s), what); }
VC(syn_pair)
{
	int stores = 1 + vf_u8("stores") % 3; bool large = vf_bool("large");
	Wire w[2]; Node a(stores, large), b(stores, large); Node* n[2] = {&a, &b};
	int src[3]; bool all = true;
	for(int s = 0; s < stores; s++) { src[s] = vf_u8("source") & 1; all &= src[s] == src[0]; }
	for(int i = vf_u8("before") % 8; i > 0; i--) n[vf_u8("side") & 1]->write(vf_u8("store") % stores);
	a.syn.connect(w[0]); b.syn.connect(w[1]);
	std::string expect[3];
	for(int s = 0; s < stores; s++) { n[src[s]]->source(s, w[src[s]]); expect[s] = n[1 - src[s]]->content(s); }
	drain(n, w);
	equal(n, stores, "the source takes over the content");
	for(int s = 0; s < stores; s++) vf_assert(a.content(s) == expect[s], "the content of the peer is leading");
	for(int p = 0; p < 12 && vf_more("phase"); p++) {
		int event = vf_u8("event") % 8, k = vf_u8("side") & 1;
		bool check = true; int must = -1;
		if(event < 4) {
			// frames are lost
			if(event) { w[0].frames.clear(); w[1].frames.clear(); }
			for(int s = 0; s < stores; s++) expect[s] = n[1 - src[s]]->content(s);
			if(event == 1) { vf_note("reset"); n[k]->syn.toConnection(w[k])->reset(); }
			if(event == 2) {
				vf_note("restart");
				n[k]->syn.disconnect(w[k]); n[k]->syn.connect(w[k]);
				for(int s = 0; s < stores; s++) if(src[s] == k) n[k]->source(s, w[k]);
			}
			if(event == 3) {
				// the peer does not know that the connection is gone
				if(!all) continue;
				vf_note("silent restart");
				n[k]->syn.disconnect(w[k]); w[k].frames.clear(); n[k]->syn.connect(w[k]);
				for(int s = 0; s < stores; s++) if(src[s] == k) n[k]->source(s, w[k]);
				if(src[0] != k) must = 1 - k;
			}
			if(event && event < 3) {
				drain(n, w);
				equal(n, stores, "the content is equal after a reconnect");
				for(int s = 0; s < stores; s++) vf_assert(a.content(s) == expect[s], "the content of the peer is leading after a reconnect");
			}
			check = event != 3;
		}
		// every store has one writer
		int writer[3];
		for(int s = 0; s < stores; s++) { writer[s] = must >= 0 ? must : vf_u8("writer") & 1; if(must >= 0) n[must]->write(s); }
		if(event == 3) {
			if(must >= 0) n[must]->syn.process();
			drain(n, w);
			equal(n, stores, "the content is equal after a silent restart");
		}
		for(int i = 0; i < 20 && vf_more("op"); i++) {
			int s = vf_u8("store") % stores;
			switch(vf_u8("what") % 4) {
			case 0: case 1: n[writer[s]]->write(s); break;
			case 2: { int q = vf_u8("side") & 1; n[q]->process(w[q], s); break; }
			default: deliver(w, vf_u8("direction") & 1);
			}
		}
		for(int s = 0; s < stores; s++) expect[s] = n[writer[s]]->content(s);
		drain(n, w);
		equal(n, stores, "the stores are equal");
		if(check) for(int s = 0; s < stores; s++) vf_assert(a.content(s) == expect[s], "what was written arrives");
	}
	vf_cover("pair");
}
// known finding: a side restarts, and the other does not know; it still uses old numbers
VC(syn_stale)
{
	Wire w[2]; Node a(2, false), b(2, false); Node* n[2] = {&a, &b};
	a.syn.connect(w[0]); b.syn.connect(w[1]);
	a.source(0, w[0]); drain(n, w); a.source(1, w[0]); drain(n, w);
	b.syn.disconnect(w[1]); w[1].frames.clear(); b.syn.connect(w[1]);
	memset(a.buf[1] + 8, 1, 8); a.j[1]->changed(8, 8); drain(n, w);
	memset(a.buf[0] + 8, 2, 8); a.j[0]->changed(8, 8); drain(n, w);
	vf_assert(b.buf[1][8] != 2, "updates are not applied to another store");
	vf_cover("stale");
}
// stores come and go; the others are not affected
VC(syn_map)
{
	int stores = 1 + vf_u8("stores") % 3;
	Wire w[2]; Node a(stores, false), b(stores, false); Node* n[2] = {&a, &b};
	bool mapped[2][3], sync[3]; int src[3];
	a.syn.connect(w[0]); b.syn.connect(w[1]);
	for(int s = 0; s < stores; s++) {
		sync[s] = false; src[s] = 0;
		for(int k = 0; k < 2; k++) { mapped[k][s] = vf_u8("mapped") % 4 != 0; if(!mapped[k][s]) n[k]->syn.m_storeMap.erase(g_names[s]); }
	}
	for(int p = 0; p < 20 && vf_more("phase"); p++) {
		int s = vf_u8("store") % stores, k = vf_u8("side") & 1;
		switch(vf_u8("event") % 4) {
		case 0:
			if(!mapped[k][s]) { vf_note("map"); n[k]->syn.m_storeMap.insert(std::make_pair((char const*)g_names[s], n[k]->j[(size_t)s])); mapped[k][s] = true; break; }
			vf_note("unmap");
			n[k]->syn.m_storeMap.erase(g_names[s]);
			n[k]->syn.toConnection(w[k])->drop(*n[k]->j[(size_t)s]);
			mapped[k][s] = false; sync[s] = false;
			break;
		case 1: case 2:
			if(sync[s] || !mapped[k][s]) break;
			vf_note("source");
			n[k]->source(s, w[k]); src[s] = k;
			sync[s] = mapped[1 - k][s];
			break;
		default:;
		}
		drain(n, w);
		std::string before[2][3];
		for(int i = 0; i < stores; i++) {
			for(int q = 0; q < 2; q++) {
				before[q][i] = n[q]->content(i);
				vf_assert(n[q]->syn.isSynchronizing(*n[q]->j[(size_t)i]) == sync[i], "which stores are synchronized");
			}
			if(sync[i]) vf_assert(before[0][i] == before[1][i], "the stores are equal");
		}
		for(int i = vf_u8("writes") % 4; i > 0; i--) n[k]->write(vf_u8("store") % stores);
		for(int i = 0; i < stores; i++) before[k][i] = n[k]->content(i);
		drain(n, w);
		for(int i = 0; i < stores; i++) {
			vf_assert(n[k]->content(i) == before[k][i], "what was written stays");
			vf_assert(n[1 - k]->content(i) == before[sync[i] ? k : 1 - k][i], "only synchronized stores change");
		}
	}
	vf_cover("map");
}
// any messages; afterwards a reconnect still works
VC(syn_any)
{
	int stores = 1 + vf_u8("stores") % 3; bool large = vf_bool("large");
	Wire w[2]; Node a(stores, large), b(stores, large); Node* n[2] = {&a, &b};
	a.syn.connect(w[0]); b.syn.connect(w[1]);
	for(int s = 0; s < stores; s++) if(vf_bool("source")) a.source(s, w[0]);
	if(vf_bool("connected")) drain(n, w);
	for(int i = 0; i < 40 && vf_more("op"); i++) {
		int k = vf_u8("side") & 1, s = vf_u8("store") % stores;
		switch(vf_u8("what") % 8) {
		case 0: n[k]->write(s); break;
		case 1: n[k]->process(w[k], s); break;
		case 2: deliver(w, k); break;
		case 3: n[k]->syn.toConnection(w[k])->reset(); break;
		default: {
			std::string f;
			f += "hwub"[vf_u8("command") % 4];
			switch(vf_u8("kind") % 8) {
			case 0: f = (char)vf_u8("any command"); break;
			case 1: case 2: f += g_names[vf_u8("hash") % 3]; if(vf_u8("terminated") % 8) f += '\0'; break;
			case 3: break;
			default: f += (char)(vf_u8("id") % 5); f += (char)(vf_u8("id high") % 16 ? 0 : 1);
			}
			if(vf_bool("second id")) { f += (char)(vf_u8("id") % 5); f += '\0'; }
			switch(vf_u8("payload") % 4) {
			case 0: break;
			case 1: f.append(vf_bool("whole") ? a.size : a.size - 1, (char)vf_u8("fill")); break;
			default: for(int m = vf_u8("len") % 24; m > 0; m--) f += (char)vf_u8("byte");
			}
			w[k].get(f);
			vf_assert(w[0].cur.empty() && w[1].cur.empty(), "messages are complete");
		} }
		w[0].total = w[1].total = 0;
	}
	for(int k = 0; k < 2; k++) n[k]->syn.disconnect(w[k]);
	w[0].frames.clear(); w[1].frames.clear();
	a.syn.connect(w[0]); b.syn.connect(w[1]);
	for(int s = 0; s < stores; s++) a.source(s, w[0]);
	drain(n, w);
	equal(n, stores, "the synchronizer still works");
	for(int s = 0; s < stores; s++) { b.write(s); a.write(s ? 0 : stores - 1); }
	vf_cover("any");
}
VC(syn_forward)
{
	// a - m - c
	Wire x[2], y[2]; Node a(1, false), m(1, false), c(1, false);
	Node* am[2] = {&a, &m}; Node* mc[2] = {&m, &c};
	for(int i = vf_u8("before") % 6; i > 0; i--) { Node* z[3] = {&a, &m, &c}; z[vf_u8("node") % 3]->write(0); }
	a.syn.connect(x[0]); m.syn.connect(x[1]); m.syn.connect(y[0]); c.syn.connect(y[1]);
	std::string expect = a.content(0);
	m.source(0, x[1]); drain(am, x);
	c.source(0, y[1]);
	for(int r = 0; r < 4; r++) { drain(am, x); drain(mc, y); }
	vf_assert(a.content(0) == expect, "the first store is leading");
	vf_assert(m.content(0) == expect && c.content(0) == expect, "the content is taken over");
	for(int p = 0; p < 8 && vf_more("phase"); p++) {
		int wr = vf_u8("writer") % 3; Node* z[3] = {&a, &m, &c};
		size_t u[4] = {x[0].updates, x[1].updates, y[0].updates, y[1].updates};
		for(int i = 0; i < 16 && vf_more("op"); i++)
			switch(vf_u8("what") % 6) {
			case 0: case 1: z[wr]->write(0); break;
			case 2: { Node* q = z[vf_u8("node") % 3]; q->syn.process(); break; }
			case 3: z[wr]->syn.process(); break;
			case 4: deliver(x, vf_u8("direction") & 1); break;
			default: deliver(y, vf_u8("direction") & 1);
			}
		expect = z[wr]->content(0);
		for(int r = 0; r < 6; r++) { drain(am, x); drain(mc, y); }
		vf_assert(x[0].frames.empty() && x[1].frames.empty() && y[0].frames.empty() && y[1].frames.empty(), "quiet");
		vf_assert(a.content(0) == expect && m.content(0) == expect && c.content(0) == expect, "changes are forwarded");
		bool back = (wr == 0 && (x[1].updates != u[1] || y[1].updates != u[3])) || (wr == 2 && (x[0].updates != u[0] || y[0].updates != u[2])) || (wr == 1 && (x[0].updates != u[0] || y[1].updates != u[3]));
		vf_assert(!back, "changes are not sent back");
	}
	vf_cover("chain");
}
// known finding: the store in the middle gets a source after it already has a synchronized copy
VC(syn_late)
{
	Wire x[2], y[2]; Node a(1, false), m(1, false), c(1, false);
	Node* am[2] = {&a, &m}; Node* mc[2] = {&m, &c};
	a.syn.connect(x[0]); m.syn.connect(x[1]); m.syn.connect(y[0]); c.syn.connect(y[1]);
	c.source(0, y[1]); drain(mc, y);
	memset(a.buf[0] + 8, 1, 8); a.j[0]->changed(8, 8);
	m.source(0, x[1]); drain(am, x);
	for(int r = 0; r < 4; r++) { drain(am, x); drain(mc, y); }
	vf_assert(m.content(0) == a.content(0), "the content is taken over");
	vf_assert(c.content(0) == m.content(0), "content of a new connection reaches the others");
	vf_cover("late");
}
