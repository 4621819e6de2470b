// C10, C11: the debugger against a reference model, on histories of requests
#include "vf.h"
#include "TestStore.h"
#include <libstored/debugger.h>
#include <map>
#include <memory>
#include <set>
#include <vector>
using namespace stored;
typedef std::string S;

struct Cap : public ProtocolLayer {
	S text; int lasts = 0;
	void encode(void const* b, size_t n, bool last = true) override
	{
		vf_assert(lasts == 0, "nothing follows the end of the response");
		if(n) text.append((char const*)b, n);
		if(last) lasts++;
	}
	using ProtocolLayer::encode;
};

class TS : public STORE_T(TS, TestStoreBase) {
	STORE_CLASS(TS, TestStoreBase)
public:
	TS() {}
	double frw = 1.5; uint16_t fro = 0x1234; char fw[4] = {}; size_t fwl = 0; int32_t arr[4] = {1, -2, 3, 4}; uint8_t blob[2][2] = {{1, 2}, {3, 4}};
	void __f_read__write(bool set, double& v) { if(set) frw = v; else v = frw; }
	void __f_read_only(bool set, uint16_t& v) { if(!set) v = fro; }
	size_t __f_write_only(bool set, char* v, size_t len) { if(!set) return 0; fwl = len < 4 ? len : 4; memcpy(fw, v, fwl); return fwl; }
	void ai(int i, bool set, int32_t& v) { if(set) arr[i] = v; else v = arr[i]; }
	void __array_f_int_0(bool set, int32_t& v) { ai(0, set, v); }
	void __array_f_int_1(bool set, int32_t& v) { ai(1, set, v); }
	void __array_f_int_2(bool set, int32_t& v) { ai(2, set, v); }
	void __array_f_int_3(bool set, int32_t& v) { ai(3, set, v); }
	size_t ab(int i, bool set, void* v, size_t len) { if(len > 2) len = 2; if(set) memcpy(blob[i], v, len); else memcpy(v, blob[i], len); return len; }
	size_t __array_f_blob_0(bool set, void* v, size_t len) { return ab(0, set, v, len); }
	size_t __array_f_blob_1(bool set, void* v, size_t len) { return ab(1, set, v, len); }
};

struct Dbg : public Debugger {
	Dbg(char const* i, char const* v) : Debugger(i, v) {}
	using Debugger::aliases; using Debugger::macros;
};

struct Obj { S name; Type::type type; size_t size; };
//! the names and types of the store, once
static std::vector<Obj> const& objs()
{
	static std::vector<Obj> v;
	if(v.empty()) {
		TS s;
		s.list([&](TS*, char const* name, Type::type type, void*, size_t len) { v.push_back({name, type, len}); });
	}
	return v;
}

static char const* const H = "0123456789abcdef";
static Type::type base_type(Type::type t) { return (Type::type)(t & ~Type::FlagFunction); }
static S hexof(Type::type t, S const& val)
{
	S r;
	if(t == Type::Bool && !val.empty()) return val[0] ? "1" : "0";
	if(Type::isFixed(t)) for(size_t i = val.size(); i-- > 0;) { r += H[(uint8_t)val[i] >> 4]; r += H[val[i] & 15]; }
	else for(char c : val) { r += H[(uint8_t)c >> 4]; r += H[c & 15]; }
	if(Type::isFixed(t) && Type::isInt(t)) { size_t k = 0; while(k + 1 < r.size() && r[k] == '0') k++; r = r.substr(k); }
	return r;
}
static int dg(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
//! \return false when the text is not acceptable for the type
static bool unhex(Type::type t, S const& text, S& val)
{
	for(char c : text) if(dg(c) < 0) return false;
	val.clear();
	if(Type::isFixed(t)) {
		size_t n = Type::size(t);
		if(text.empty() || text.size() > 2 * n) return false;
		S x(2 * n - text.size(), '0'); x += text;
		for(size_t i = n; i-- > 0;) val += (char)(dg(x[2 * i]) << 4 | dg(x[2 * i + 1]));
		if(base_type(t) == Type::Bool) val[0] = val[0] ? 1 : 0;
		return true;
	}
	if(text.size() & 1) return false;
	if(text.empty() && base_type(t) != Type::String) return false;
	for(size_t i = 0; i < text.size(); i += 2) val += (char)(dg(text[i]) << 4 | dg(text[i + 1]));
	return true;
}

struct Model {
	TS st[2]; Dbg d; int n;
	S shadow[2]; double frw[2]; int32_t arr[2][4]; S blob[2][2]; S fw[2];
	char const* pfx[2] = {"/alpha", "/al"};
	uint8_t arena[128], ar[128];
	char const* id;
	struct Ref { int s; Variant<TS> v; bool ok() const { return s >= 0; } };
	std::map<char, Ref> al;
	std::map<char, S> mac; std::set<char> inuse;
	std::map<char, std::shared_ptr<S>> str;
	char tm = 0, ts = 0; unsigned dec = 0, cnt = 0;
	bool risky = false; int steps = 0;

	Model(int nst, char const* id_, char const* ver_) : d(id_, ver_), n(nst), id(id_), ver(ver_)
	{
		if(n == 1) d.map(st[0]); else { d.map(st[0], pfx[0]); d.map(st[1], pfx[1]); }
		for(int i = 0; i < 2; i++) {
			shadow[i].assign(st[i].buffer(), (size_t)TS::BufferSize);
			frw[i] = st[i].frw; memcpy(arr[i], st[i].arr, sizeof arr[i]);
			for(int k = 0; k < 2; k++) blob[i][k].assign((char*)st[i].blob[k], 2);
		}
		for(size_t i = 0; i < 128; i++) ar[i] = arena[i] = (uint8_t)(i * 7);
	}
	char const* ver;

	Ref look(int s, char const* nm, size_t len) { Variant<TS> v = st[s].find(nm, len); return v.valid() ? Ref{s, v} : Ref{-1, {}}; }
	Ref find(S const& nm)
	{
		if(nm.empty()) return {-1, {}};
		if(nm.size() == 1 && nm[0] != '/') { auto it = al.find(nm[0]); if(it != al.end()) return it->second; }
		if(n == 1) { Ref r = look(0, nm.data(), nm.size()); return r.ok() ? r : look(0, nm.data() + 1, nm.size() - 1); }
		size_t k = 1; while(k < nm.size() && nm[k] && nm[k] != '/') k++;
		if(k == nm.size()) return {-1, {}};
		S p = nm.substr(0, k);
		int c = -1, m = 0;
		for(int i = 0; i < 2; i++) if(p == pfx[i]) { c = i; m = 1; }
		if(!m) for(int i = 0; i < 2; i++) if(!strncmp(p.c_str(), pfx[i], p.size())) { c = i; m++; }
		if(m != 1) return {-1, {}};
		return look(c, nm.data() + 1, nm.size() - 1);
	}
	static int fidx(Type::type t, size_t size) { return 0; }
	S value(Ref const& r)
	{
		Variant<TS> v = r.v;
		S x(v.size(), 0);
		if(v.isFunction()) { x.resize(v.get(&x[0], x.size())); return x; }
		size_t o = (size_t)((char*)v.buffer() - st[r.s].buffer());
		x = shadow[r.s].substr(o, v.size());
		if(v.type() == Type::String) { size_t z = x.find('\0'); if(z != S::npos) x.resize(z); }
		return x;
	}
	void write(Ref const& r, S const& val)
	{
		Variant<TS> v = r.v;
		if(v.isFunction()) {
			// the functions by type
			fw_pending = true; fp = r; fv = val.substr(0, std::min(val.size(), v.size()));
			return;
		}
		size_t o = (size_t)((char*)v.buffer() - st[r.s].buffer());
		S x = val.substr(0, std::min(val.size(), v.size()));
		if(v.type() == Type::String) { size_t z = x.find('\0'); if(z != S::npos) x.resize(z); x += '\0'; }
		shadow[r.s].replace(o, x.size(), x);
	}
	bool fw_pending = false; Ref fp; S fv;

	Stream<>* dummy = nullptr;
	std::shared_ptr<S> stream(char c)
	{
		auto it = str.find(c);
		if(it != str.end()) return it->second;
		if(str.size() >= (size_t)Config::DebuggerStreams) {
			for(auto i = str.begin(); i != str.end(); ++i) if(i->second->empty()) { str.erase(i); break; }
		}
		if(str.size() >= (size_t)Config::DebuggerStreams) return nullptr;
		return str[c] = std::make_shared<S>();
	}
	static S hexnum(size_t x) { char b[20]; snprintf(b, 20, "%zx", x); return b; }
	//! the expected response of the request (empty requests have none)
	S exec(S const& q, bool dry)
	{
		if(++steps > 300) { risky = true; return S(); }
		S const no = "?", yes = "!";
		if(q.empty()) return S();
		S a = q.substr(1);
		switch(q[0]) {
		case '?': { S c = "?rwelam"; if(id && *id) c += "i"; return c + "vRWst"; }
		case 'r': {
			Ref r = find(a);
			if(!r.ok()) return no;
			S v = value(r);
			return hexof(r.v.type(), v);
		}
		case 'w': {
			if(a.empty()) return no;
			size_t k = a.find('/');
			if(k == S::npos || k > a.size() - 1) k = a.size() - 1;
			Ref r = find(a.substr(k));
			S v;
			if(!r.ok() || !unhex(r.v.type(), a.substr(0, k), v)) return no;
			if(!dry) { write(r, v); if(fw_pending) { fw_pending = false; fapply(); } }
			return yes;
		}
		case 'e': return a;
		case 'l': {
			S o;
			// sorted by the prefix when there is more than one
			for(int i = 0; i < n; i++) { int s = n == 1 ? 0 : 1 - i; for(auto const& b : objs()) { S t; t += H[(b.type >> 4) & 15]; t += H[b.type & 15]; o += t + hexnum(b.size) + (n == 1 ? S() : S(pfx[s])) + b.name + "\n"; } }
			return o;
		}
		case 'a': {
			if(a.empty()) return no;
			if(a[0] < 0x20 || a[0] > 0x7e || a[0] == '/') return no;
			if(a.size() == 1) { if(!dry) al.erase(a[0]); return yes; }
			Ref r = find(a.substr(1));
			if(!r.ok()) return no;
			if(!dry) al[a[0]] = r;
			return yes;
		}
		case 'm': {
			if(a.empty()) return no;
			char m = a[0];
			if(inuse.count(m)) return no;
			if(a.size() == 1) { if(!dry) mac.erase(m); return yes; }
			size_t tot = 0; for(auto& x : mac) if(x.first != m) tot += x.second.size();
			if(tot + a.size() - 1 > (size_t)Config::DebuggerMacro) return no;
			if(!dry) mac[m] = a.substr(1);
			return yes;
		}
		case 'i': return id && *id ? S(id) : no;
		case 'v': { S o = "2"; if(ver && *ver) o += S(" ") + ver; if(Config::Debug) o += " debug"; return o; }
		case 'R': case 'W': {
			if(a.empty()) return no;
			size_t k = a.find(' ', 1);
			S v; if(!unhex(Type::Pointer, a.substr(0, k), v)) return no;
			uintptr_t p; memcpy(&p, v.data(), sizeof p);
			bool more = k != S::npos && k + 1 < a.size();
			if(q[0] == 'R') {
				size_t len = sizeof(void*);
				if(more) { S l; if(!unhex(Type::Uint32, a.substr(k + 1), l)) return no; uint32_t x; memcpy(&x, l.data(), 4); len = x; }
				if(!len) return no;
				if(p < (uintptr_t)arena || p > (uintptr_t)arena + sizeof arena || len > (uintptr_t)arena + sizeof arena - p) { risky = true; return no; }
				return hexof(Type::Blob, S((char*)ar + (p - (uintptr_t)arena), len));
			}
			S b; if(!more || !unhex(Type::Blob, a.substr(k + 1), b)) return no;
			if(p < (uintptr_t)arena || p > (uintptr_t)arena + sizeof arena || b.size() > (uintptr_t)arena + sizeof arena - p) { risky = true; return no; }
			if(!dry) memcpy(ar + (p - (uintptr_t)arena), b.data(), b.size());
			return yes;
		}
		case 's': {
			if(a.empty()) { S o; for(auto& x : str) if(!x.second->empty()) o += x.first; return o.empty() ? no : o; }
			auto it = str.find(a[0]);
			if(it == str.end()) return no;
			S o = *it->second;
			if(!dry) it->second->clear();
			return o + a.substr(1);
		}
		case 'f': return no;
		case 't': {
			if(!dry) dec = 0;
			if(a.empty()) return yes;
			if(a.size() < 2) return no;
			unsigned x = 1;
			if(a.size() > 2) { S l; if(!unhex(Type::Uint32, a.substr(2, 8), l)) return no; memcpy(&x, l.data(), 4); }
			if(dry) return yes;
			if(!stream(a[1])) return no;
			tm = a[0]; ts = a[1]; dec = x;
			return yes;
		}
		default: return macro(q[0], dry, nullptr);
		}
	}
	S macro(char m, bool dry, S* into)
	{
		auto it = mac.find(m);
		if(it == mac.end() || inuse.count(m)) return into ? S() : S("?");
		S def = it->second, o;
		inuse.insert(m);
		size_t pos = 0;
		if(def.size() > 1) do {
			size_t nx = def.find(def[0], ++pos);
			if(dry && nx < def.size() && into && def[pos] == 't') risky = true;
			S r = exec(def.substr(pos, nx == S::npos ? S::npos : nx - pos), dry);
			if(into) *into += r; else o += r;
			pos = nx;
		} while(pos != S::npos && !risky);
		inuse.erase(m);
		return o;
	}
	void fapply()
	{
		// which function object is it?
		int s = fp.s;
		for(auto const& b : objs()) {
			if(!Type::isFunction(b.type)) continue;
			Variant<TS> v = st[s].find(b.name.c_str());
			if(!(v == fp.v)) continue;
			if(b.name == "/f read/write") memcpy(&frw[s], fv.data(), 8);
			else if(b.name == "/f write-only") fw[s] = fv;
			else if(b.name.substr(0, 12) == "/array f int") memcpy(&arr[s][b.name[13] - '0'], fv.data(), 4);
			else if(b.name.substr(0, 13) == "/array f blob") blob[s][b.name[14] - '0'].replace(0, fv.size(), fv);
		}
	}
	void check()
	{
		for(int i = 0; i < 2; i++) {
			vf_assert(!memcmp(shadow[i].data(), st[i].buffer(), shadow[i].size()), "store content");
			vf_assert(!memcmp(&frw[i], &st[i].frw, 8), "function value");
			vf_assert(!memcmp(arr[i], st[i].arr, sizeof arr[i]), "function array");
			for(int k = 0; k < 2; k++) vf_assert(!memcmp(blob[i][k].data(), st[i].blob[k], 2), "function blob");
			vf_assert(fw[i] == S(st[i].fw, st[i].fwl), "function string");
		}
		vf_assert(!memcmp(arena, ar, sizeof ar), "memory");
		vf_assert(d.aliases().size() == al.size() && al.size() <= (size_t)Config::DebuggerAlias, "aliases");
		for(auto& x : al) vf_assert(d.aliases().count(x.first), "alias exists");
		vf_assert(d.macros().size() == mac.size(), "macros");
		size_t tot = 0;
		for(auto& x : mac) { auto it = d.macros().find(x.first); vf_assert(it != d.macros().end() && S(it->second.data(), it->second.size()) == x.second, "macro definition"); tot += x.second.size(); }
		vf_assert(tot <= (size_t)Config::DebuggerMacro, "macro limit");
		int ns = 0;
		for(int c = -128; c < 128; c++) {
			Stream<>* p = d.stream((char)c); auto it = str.find((char)c);
			if(p) ns++;
			vf_assert((p != nullptr) == (it != str.end()), "streams");
			if(p) vf_assert(S(p->buffer().data(), p->buffer().size()) == *it->second, "stream content");
		}
		vf_assert(ns <= Config::DebuggerStreams, "stream limit");
		vf_assert(d.tracing() == (dec > 0), "tracing");
	}
};

static S rbytes(size_t max, char const* nm)
{
	size_t n = vf_choice((unsigned)max + 1, nm); S s;
	for(size_t i = 0; i < n; i++) s += (char)vf_u8("c");
	return s;
}
static S rhex(size_t max)
{
	size_t n = vf_choice((unsigned)max + 1, "digits"); S s;
	for(size_t i = 0; i < n; i++) { unsigned c = vf_choice(64, "digit"); s += c < 16 ? H[c] : c < 32 ? "0123456789ABCDEF"[c - 16] : c == 63 ? "g/ G`@:"[vf_choice(7, "odd")] : H[c & 7]; }
	return s;
}
static S rname(Model& m)
{
	unsigned k = vf_choice(16, "name kind");
	auto const& o = objs();
	if(k < 10 || k == 15) {
		S s = o[vf_u8("object") % o.size()].name;
		if(m.n == 2 && k != 7) { unsigned p = vf_choice(5, "prefix"); s = S(p == 0 ? "/alp" : p == 1 ? "/al" : p == 2 ? "/a" : "/alpha") + s; }
		if(k == 8) s.resize(vf_choice((unsigned)s.size() + 1, "cut"));
		if(k == 9 && !s.empty()) s[vf_choice((unsigned)s.size(), "at")] = (char)vf_u8("c");
		return s;
	}
	if(k < 14) return S(1, "abcdefgh"[vf_choice(8, "alias")]);
	return rbytes(6, "raw name");
}
static char rmac() { return "ABCDxyz\xff"[vf_choice(8, "macro")]; }
static char rstr() { return "STU?"[vf_choice(4, "stream")]; }
static S request(Model& m, int depth)
{
	char b[40];
	switch(vf_choice(depth ? 18 : 16, "request")) {
	case 0: case 1: return "r" + rname(m);
	case 2: case 3: case 4: return "w" + rhex(20) + rname(m);
	case 5: return "e" + rbytes(5, "echo");
	case 6: return S(1, "?livsftx"[vf_choice(8, "simple")]);
	case 7: { S s = "a"; if(vf_bool("c")) s += "abcdefgh"[vf_choice(8, "alias")]; else s += rbytes(1, "alias"); if(vf_bool("set")) s += rname(m); return s; }
	case 8: case 16: case 17: {
		S s = "m"; s += rmac();
		if(depth) {
			unsigned k = vf_choice(5, "parts");
			char sep = vf_bool("sep") ? '|' : ';';
			if(k == 4) s += rbytes(2, "short");
			else if(k == 3 && vf_bool("long")) { s += sep; s += 'e'; s.append(vf_u16("length") % 4200, 'z'); }
			else for(unsigned i = 0; i < k; i++) { s += sep; s += request(m, 0); }
		}
		return s;
	}
	case 9: case 10: {
		size_t o = vf_choice(130, "offset");
		snprintf(b, 40, "%lx", (unsigned long)((uintptr_t)m.arena + o));
		S s = vf_bool("write") ? "W" : "R"; s += b;
		unsigned k = vf_choice(8, "tail");
		if(k == 0) return s;
		s += ' ';
		if(s[0] == 'R') { snprintf(b, 40, "%x", vf_choice(130, "n")); return s + (k == 1 ? rhex(9) : S(b)); }
		size_t n = vf_choice(k == 1 ? 8 : 130, "n");
		S t; for(size_t i = 0; i < n; i++) { uint8_t x = (uint8_t)(i * 31 + k); t += H[x >> 4]; t += H[x & 15]; }
		if(k == 2 && n) t[vf_choice((unsigned)t.size(), "at")] = 'g';
		if(k == 3 && n) t.pop_back();
		return s + t;
	}
	case 11: { S s = "s"; s += rstr(); return s + rbytes(2, "suffix"); }
	case 12: { S s = "t"; s += rmac(); s += rstr(); return vf_bool("dec") ? s + rhex(10) : s; }
	case 13: return S(1, rmac());
	case 14: return rbytes(4, "raw");
	default: { S s = request(m, 0); if(!s.empty()) s.resize(1 + vf_choice((unsigned)s.size(), "cut")); return s; }
	}
}

NVC(dbg_history)
{
	Model m(vf_bool("two stores") ? 2 : 1, vf_bool("id") ? "ident" : nullptr, vf_bool("ver") ? "1.2" : nullptr);
	m.check();
	int k = 0;
	while(vf_more("more") && k++ < 40) {
		unsigned op = vf_choice(16, "op");
		if(op == 0) {
			char c = rstr(); S s = rbytes(6, "data"); if(vf_choice(4, "big") == 0) s.append(vf_u16("length") % 1200, 'q');
			size_t r = m.d.stream(c, s.data(), s.size());
			size_t want = 0;
			if(c != '?') { auto p = m.stream(c); if(p && p->size() < 1024) { want = std::min(s.size(), (size_t)1024 - p->size()); p->append(s, 0, want); } }
			vf_assert(r == want, "accepted stream data");
		} else if(op == 1) {
			m.risky = false; m.steps = 0;
			if(m.dec) {
				S sink; m.macro(m.tm, true, &sink);
				// a macro that streams the trace itself, or that changes macros, depends on the order of its own output
				auto it = m.mac.find(m.tm);
				if(it != m.mac.end() && it->second.find_first_of("stamABCDxyz\xff") != S::npos) m.risky = true;
			}
			if(m.risky) continue;
			m.d.trace();
			if(m.dec && ++m.cnt >= m.dec) {
				m.cnt = 0;
				auto p = m.stream(m.ts);
				if(p && p->size() < 1024) m.macro(m.tm, false, p.get());
			}
		} else {
			S q = request(m, 1);
			m.risky = false; m.steps = 0;
			m.exec(q, true);
			// not all commands can be predicted in advance when macros change what they execute
			if(m.risky) continue;
			if(m.mac.count(q.empty() ? 0 : q[0]) && m.mac[q[0]].find_first_of("mRW") != S::npos) continue;
			S want = m.exec(q, false);
			if(m.risky) break;
			Cap c; S buf = q;
			m.d.process(buf.data(), buf.size(), c);
			if(q.empty()) { vf_assert(!c.lasts && c.text.empty(), "no response to nothing"); continue; }
			vf_assert(c.lasts == 1, "exactly one response");
			vf_assert(c.text == want, "response");
			if(want == "!") vf_cover("accepted");
		}
		m.check();
	}
	vf_cover("history");
}

//! C10: reading, writing what was read, and writing any text
NVC(dbg_value)
{
	Model m(1, nullptr, nullptr);
	auto const& o = objs();
	int k = 0;
	while(vf_more("more") && k++ < 12) {
		Obj const& b = o[vf_u8("object") % o.size()];
		Model::Ref r = m.find(b.name);
		vf_assert(r.ok(), "object exists");
		if(r.v.isFunction()) continue;
		// give it any value
		S x(b.size, 0); for(auto& c : x) c = (char)vf_u8("value");
		if(base_type(b.type) == Type::Bool) x[0] &= 1;
		if(b.type == Type::String && vf_bool("short")) x.resize(vf_choice((unsigned)x.size() + 1, "size"));
		Variant<TS> v = r.v; v.set(x.data(), x.size()); m.write(r, x); m.check();
		Cap c; S q = "r" + b.name; m.d.process(q.data(), q.size(), c);
		vf_assert(c.lasts == 1 && c.text == hexof(b.type, m.value(r)), "canonical text of the value");
		S before((char*)v.buffer(), b.size), was = m.value(r);
		// something else is written
		S y(b.size, 0); for(auto& e : y) e = (char)vf_u8("other"); if(base_type(b.type) == Type::Bool) y[0] &= 1;
		v.set(y.data(), y.size()); m.write(r, y);
		// and it is restored
		Cap c2; q = "w" + c.text + b.name; m.d.process(q.data(), q.size(), c2);
		vf_assert(c2.lasts == 1 && c2.text == "!", "the text is accepted");
		m.write(r, was);
		m.check();
		Cap c3; q = "w" + rhex(2 * (unsigned)b.size + 3) + b.name;
		S want = m.exec(q, false);
		m.d.process(q.data(), q.size(), c3);
		vf_assert(c3.lasts == 1 && c3.text == want, "accepted or refused");
		m.check();
		vf_cover("value");
	}
}
