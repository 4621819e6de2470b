// C12: directory lookup and listing.  The object list comes from the generator's parse of the store description; the
// directory bytes come from the generated code.
#include "vf.h"
#ifndef VF_PROVE
#include <map>
#include <set>
#include <vector>
#include <algorithm>
#endif
#include <stored>
#include "../src/TestStore.cpp"
#include "../src/VfDir.cpp"
using namespace stored;

struct DirObj { char const* name; Type::type type; bool fn; size_t offset, size; };
#define OBJ(n, t, f, o, s) {n, Type::t, f, o, s},
static DirObj const tTest[] = {
#include "TestStore_objs.h"
};
static DirObj const tDir[] = {
#include "VfDir_objs.h"
};
enum { nTest = (int)(sizeof(tTest) / sizeof(tTest[0])), nDir = (int)(sizeof(tDir) / sizeof(tDir[0])) };

static uint8_t const* directory(int d)
{
	switch(d) {
	case 0: return TestStoreData::shortDirectory();
	case 1: return TestStoreData::longDirectory();
	case 2: return VfDirData::shortDirectory();
	default: return VfDirData::longDirectory();
	}
}
static DirObj const* table(int d) { return d < 2 ? tTest : tDir; }
static int count(int d) { return d < 2 ? nTest : nDir; }

static Type::type type_of(DirObj const& o) { return (Type::type)(o.type | (o.fn ? Type::FlagFunction : 0)); }
static bool is_obj(Variant<> const& v, DirObj const& o)
{
	// the container-independent variant holds the offset or function number
	return v.type() == type_of(o) && (size_t)v.m_offset == o.offset && v.m_len == o.size;
}
static int which(Variant<> const& v, DirObj const* t, int n)
{
	for(int i = 0; i < n; i++)
		if(is_obj(v, t[i])) return i;
	return -1;
}

// ---------------------------------------------------------------- the full name of every object
template <int D> static void full(int from, int to)
{
	vf_unroll_outer_(390);
	DirObj const* t = table(D);
	int n = count(D);
	for(int i = from; i < to && i < n; i++) {
		Variant<> v = impl::find(directory(D), t[i].name);
		vf_assert(v.valid(), "the full name of an object is found");
		vf_assert(is_obj(v, t[i]), "the full name gives that object");
		Variant<> w = impl::find(directory(D), t[i].name, strlen(t[i].name));
		vf_assert(w.valid() && is_obj(w, t[i]), "the full name without terminator gives that object");
		vf_cover("found");
	}
}
VC(dir_full_test_short) { full<0>(0, 1000); }
VC(dir_full_test_long) { full<1>(0, 1000); }
VC(dir_full_tricky_short) { full<2>(0, 1000); }
VC(dir_full_tricky_long) { full<3>(0, 1000); }

// ---------------------------------------------------------------- any name
template <int D> static void any()
{
	vf_unroll_outer_(390);
	size_t n = vf_size("n");
	char* name = (char*)vf_alloc(n + 1, "name");
	size_t len = n;
	if(vf_bool("terminated")) {
		name[n] = 0;
		len = std::numeric_limits<size_t>::max();
	}
	Variant<> v = impl::find(directory(D), name, len);
	vf_cover("looked up");
	if(!v.valid()) return;
	vf_assert(which(v, table(D), count(D)) >= 0, "what is found is an object of the store");
	vf_cover("found");
}
PVC(dir_any_test_short) { any<0>(); }
PVC(dir_any_test_long) { any<1>(); }
PVC(dir_any_tricky_short) { any<2>(); }
PVC(dir_any_tricky_long) { any<3>(); }

#ifndef VF_PROVE
// ---------------------------------------------------------------- which characters tell an object apart
struct Ref {
	std::vector<std::string> names; // without the leading slash
	// per object, per level of its name, per character: the characters that other objects with the same name up to there have there (0: end)
	std::vector<std::vector<std::vector<std::set<int>>>> sib;
	std::vector<std::vector<std::string>> lev;

	static std::vector<std::string> split(std::string const& s)
	{
		std::vector<std::string> r(1);
		for(char c : s) { if(c == '/') r.emplace_back(); else r.back() += c; }
		return r;
	}
	Ref(DirObj const* t, int n)
	{
		for(int i = 0; i < n; i++) names.push_back(t[i].name + 1);
		for(auto const& nm : names) {
			lev.push_back(split(nm));
			std::vector<std::vector<std::set<int>>> s(1);
			for(size_t k = 0; k <= nm.size(); k++) {
				std::set<int> x;
				for(auto const& o : names)
					if(o.compare(0, k, nm, 0, k) == 0 && o.size() >= k) x.insert(k < o.size() ? (unsigned char)o[k] : 0);
				s.back().push_back(x);
				if(k < nm.size() && nm[k] == '/') s.emplace_back();
			}
			sib.push_back(s);
		}
	}
	static int at(std::vector<std::string> const& l, size_t lv, size_t k)
	{
		if(lv >= l.size()) return 0;
		if(k < l[lv].size()) return (unsigned char)l[lv][k];
		return k == l[lv].size() && lv + 1 < l.size() ? '/' : k == l[lv].size() ? 0 : -1;
	}
	// nothing in the name contradicts that it is object i
	bool agrees(std::string const& name, int i) const
	{
		std::vector<std::string> l = split(name);
		for(size_t lv = 0; lv < lev[i].size(); lv++)
			for(size_t k = 0; k < sib[i][lv].size(); k++) {
				std::set<int> const& x = sib[i][lv][k];
				if(x.size() < 2) continue;
				int want = at(lev[i], lv, k), got = at(l, lv, k);
				if(want && want != '/') { if(got != want) return false; }
				else if(got != want && x.count(got)) return false;
			}
		return true;
	}
	// every level cut off after the last character that tells it apart from others
	std::string shortest(int i) const
	{
		std::string r;
		size_t last = 0;
		for(size_t lv = 0; lv < lev[i].size(); lv++)
			for(size_t k = 0; k < sib[i][lv].size(); k++)
				if(sib[i][lv][k].size() > 1) last = std::min(k < lev[i][lv].size() ? lv : lv + 1, lev[i].size() - 1); // the slash itself may tell
		for(size_t lv = 0; lv < lev[i].size() && lv <= last; lv++) {
			size_t n = 1; // at least the first character
			for(size_t k = 0; k < sib[i][lv].size(); k++)
				if(sib[i][lv][k].size() > 1) n = k + 1;
			r += '/';
			r += lev[i][lv].substr(0, n);
		}
		return r;
	}
};

static Variant<> lookup(int d, std::string const& name, bool term)
{
	// exactly as large as the name
	char* p = (char*)malloc(name.size() + (term ? 1 : 0) + !name.size());
	memcpy(p, name.data(), name.size());
	if(term) p[name.size()] = 0;
	Variant<> v = term ? impl::find(directory(d), p) : impl::find(directory(d), p, name.size());
	free(p);
	return v;
}

VC(dir_abbrev)
{
	static Ref const refs[] = {Ref(tTest, nTest), Ref(tDir, nDir)};
	while(vf_more("lookup")) {
		int d = (int)vf_choice(4, "dir");
		Ref const& R = refs[d / 2];
		DirObj const* t = table(d);
		int n = count(d);
		int i = (int)vf_index((size_t)n, "object");
		bool term = vf_bool("terminated");
		std::string name = t[i].name;
		unsigned what = vf_choice(8, "what");
		size_t cut = (size_t)vf_choice(100, "cut");
		int expect = -2; // unknown
		switch(what) {
		case 0: expect = i; break;
		case 1: // cut off
			name = name.substr(0, cut % (name.size() + 1));
			break;
		case 2: // shortest abbreviation
			name = R.shortest(i);
			if(d % 2 == 0) expect = i;
			break;
		case 3: // every level cut off somewhere between the shortest and the full name
			if(d % 2 == 0) {
				std::vector<std::string> a = R.split(R.shortest(i)), b = R.split(t[i].name);
				name.clear();
				for(size_t k = 1; k < b.size(); k++) {
					if(k >= a.size() && vf_bool("drop")) break;
					size_t m = k < a.size() ? a[k].size() : 1;
					name += "/" + b[k].substr(0, m + (size_t)vf_choice(40, "more"));
				}
				expect = i;
			}
			break;
		case 4: // another character
			name[cut % name.size()] = (char)vf_u8("c");
			break;
		case 5: // tail of another object
		{
			std::string o = t[vf_index((size_t)n, "other")].name;
			name = name.substr(0, cut % (name.size() + 1)) + o.substr(std::min(o.size(), (size_t)vf_choice(100, "from")));
			break;
		}
		case 6: // more text
			name += (char)vf_u8("c");
			break;
		default:
			name.clear();
			while(vf_more("c") && name.size() < 100) name += (char)vf_u8("c");
		}
		if(size_t z = name.find('\0') + 1) name.resize(z - 1);
		for(int k = 0; k < n; k++)
			if(name == t[k].name) expect = k;
		if(expect == -2) {
			// stops before it is unambiguous
			int pre = 0; bool scope = false;
			for(int k = 0; k < n; k++) {
				if(!strncmp(t[k].name, name.c_str(), name.size())) pre++;
				if(!strncmp(t[k].name, (name + "/").c_str(), name.size() + 1)) scope = true;
			}
			if(pre > 1 && !scope && !name.empty()) expect = -1;
		}
		vf_note(("lookup of " + name + " for " + t[i].name).c_str());
		Variant<> v = lookup(d, name, term);
		int f = v.valid() ? which(v, t, n) : -1;
		vf_assert(!v.valid() || f >= 0, "what is found is an object of the store");
		if(expect == -1) vf_assert(f < 0, "a name that stops before it is unambiguous gives no object");
		if(expect >= 0) vf_assert(f == expect, "a full name or an unambiguous abbreviation gives that object");
		if(f >= 0 && !name.empty() && name[0] == '/') vf_assert(R.agrees(name.substr(1), f), "a name that contradicts the name of an object does not give it");
	}
}

// ---------------------------------------------------------------- listing
struct Entry { std::string name; Type::type type; void* buf; size_t len; };
static void cb(void* c, char const* name, Type::type type, void* buf, size_t len, void* arg)
{
	vf_assert(c == (void*)0x1234, "container");
	((std::vector<Entry>*)arg)->push_back(Entry{name ? name : "", type, buf, len});
}
VC(dir_list)
{
	String::type nb;
	while(vf_more("list")) {
		int d = (int)(vf_choice(2, "dir") * 2 + 1); // the full names are in the long directory
		DirObj const* t = table(d);
		int n = count(d);
		std::vector<char> buf(200000);
		std::vector<Entry> l;
		std::string prefix;
		bool hasp = vf_bool("prefix"), own = vf_bool("own"), names = true;
		if(hasp) while(vf_more("p") && prefix.size() < 20) prefix += (char)('a' + vf_choice(26, "p"));
		char const* pf = hasp ? prefix.c_str() : nullptr;
		if(own) {
			if(vf_bool("nonames")) { names = false; stored::list((void*)0x1234, buf.data(), directory(d), (String::type*)nullptr, &cb, &l, pf); }
			else { if(!hasp) nb.clear(); stored::list((void*)0x1234, buf.data(), directory(d), &nb, &cb, &l, pf); }
		} else
			stored::list((void*)0x1234, buf.data(), directory(d), &cb, &l, pf);
		vf_assert((int)l.size() == n, "as many entries as objects");
		std::set<int> seen;
		for(auto const& e : l) {
			int f = -1;
			for(int k = 0; k < n; k++) {
				void* b = t[k].fn ? (void*)(uintptr_t)t[k].offset : (void*)(buf.data() + t[k].offset);
				if(e.buf == b && e.type == type_of(t[k]) && e.len == t[k].size) f = k;
			}
			vf_assert(f >= 0, "every entry is an object");
			vf_assert(seen.insert(f).second, "every object is listed once");
			vf_assert(names ? e.name == prefix + t[f].name : e.name.empty(), "every object is listed with its full name");
		}
	}
}
// the stores themselves
VC(dir_store)
{
	static TestStore s;
	std::map<std::string, int> seen;
	s.list([&](TestStore* c, char const* name, Type::type type, void* b, size_t len) {
		vf_assert(c == &s, "container");
		int f = -1;
		for(int k = 0; k < nTest; k++) if(!strcmp(tTest[k].name, name)) f = k;
		vf_assert(f >= 0 && type == type_of(tTest[f]) && len == tTest[f].size, "every entry is an object");
		if(!tTest[f].fn) vf_assert((char*)b - (char*)s.buffer() == (ptrdiff_t)tTest[f].offset, "every entry is at its place");
		vf_assert(!seen[name]++, "every object is listed once");
		auto v = s.find(name);
		vf_assert(v.valid() && v.type() == type && v.size() == len, "what is listed is found");
		if(!tTest[f].fn) vf_assert(v.m_buffer == b, "what is found is at its place");
	});
	vf_assert((int)seen.size() == nTest, "as many entries as objects");
}
#endif
