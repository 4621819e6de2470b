// Specification interface.  The same specification functions are (a) given to the deductive engine (VF_PROVE) and
// (b) compiled natively against the real code to replay a counterexample or to look for a failing input.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>

typedef uint64_t u64;

extern "C" {
u64 vf_u(int bits, char const* name);
void vf_assume(bool c);
void vf_assert_(bool c, char const* what);
void vf_cover_(char const* what);
void* vf_alloc(size_t n, char const* name);
void vf_string_any(std::string* s, char const* name);
void vf_invariant_(bool (*f)());
void vf_invariant_forall_(bool (*f)(u64));
void vf_invariant_at_(bool (*f)(u64)); // of any 64-bit variable that the loop changes
void vf_invariant_at2_(bool (*f)(u64, u64)); // of any two of them
void vf_invariant_at2n_(bool (*f)(u64, u64)); // of a narrower one (zero-extended) and a 64-bit one
void vf_invariant_atm_(bool (*f)(u64, u64)); // of a small local array (little endian) and a 64-bit one
void vf_lean_(bool on); // hardly any generic candidates for loop invariants, rely on those of the spec
void vf_closed_(char const* prefix); // functions with this prefix must have a contract vfc__
void vf_recursive_(char const* name); // the contract vfc__ of this function only replaces its recursive calls
void vf_region_(bool (*f)(u64));
void vf_assume_forall_(bool (*f)(u64)); // proofs only
void vf_region_if_(bool (*f)(u64)); // same, as long as some flag that the loop updates is set
void vf_specfn_(char const* name, bool (*axiom)(u64), int tmpl);
u64 vf_app1(char const* name, u64 a);
u64 vf_app2(char const* name, u64 a, u64 b);
void vf_split_(void const* p, size_t n, int values);
void vf_const_(u64 v);
void vf_unroll_(int n); // loops are followed iteration by iteration for up to n iterations before an invariant is looked for
void vf_unroll_outer_(int n); // the same, for loops that are not within another one of the same function
void vf_merge_(bool on); // paths through loop-free leaf functions are joined when they return
int vf_fork(int n);
u64 vf_concretize(u64 v, u64 bound);
u64 vf_nsize(char const* name, u64 max);
bool vf_nmore(char const* name);
bool vf_isnative();
void vf_havoc_(void* p, size_t n, char const* name);
void vf_note(char const* t); // native only: shown in the trace of a failure
}

#define vf_assert(c, what) vf_assert_(!!(c), what)
#define vf_cover(what) vf_cover_(what)
static inline u64 vf_u64(char const* n) { return vf_u(64, n); }
static inline uint32_t vf_u32(char const* n) { return (uint32_t)vf_u(32, n); }
static inline uint16_t vf_u16(char const* n) { return (uint16_t)vf_u(16, n); }
static inline uint8_t vf_u8(char const* n) { return (uint8_t)vf_u(8, n); }
static inline bool vf_bool(char const* n) { return vf_u(1, n) != 0; }
//! any index below n (n > 0)
static inline size_t vf_index(size_t n, char const* nm) { u64 x = vf_u(64, nm); if(vf_isnative()) return (size_t)(x % n); vf_assume(x < n); return (size_t)x; }

#ifdef VF_PROVE
#	define VC(name) extern "C" void vc_##name()
#	define PVC(name) extern "C" void vc_##name()
#	define NVC(name) static void nvc_##name()
//! any size below 2^40
static inline size_t vf_size(char const* n) { u64 x = vf_u(64, n); vf_assume(x < (1ull << 40)); return (size_t)x; }
static inline bool vf_more(char const* n) { return vf_bool(n); }
//! any value in [0,k)
static inline unsigned vf_choice(unsigned k, char const* n) { uint8_t x = vf_u8(n); vf_assume(x < k); return x; }
#else
struct VfReg { VfReg(char const* n, void (*f)()); };
#	define VC(name)                                  \
		extern "C" void vc_##name();              \
		static VfReg reg_##name(#name, vc_##name); \
		extern "C" void vc_##name()
#	define NVC(name) VC(name)
#	define PVC(name) extern "C" void vc_##name()
static inline size_t vf_size(char const* n) { return (size_t)vf_nsize(n, 300); }
static inline bool vf_more(char const* n) { return vf_nmore(n); }
static inline unsigned vf_choice(unsigned k, char const* n) { return (unsigned)vf_u(8, n) % k; }
#endif
#define SPEC extern "C" __attribute__((used))
