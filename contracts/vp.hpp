// Contract vocabulary shared by the symbolic and the native build of a contract.
//   vp_*  input functions : universally quantified inputs (symbolic) / generated or replayed (native)
//   VP_REQUIRES(c)        : precondition of the contract
//   VP_ENSURES(c, name)   : a named proof obligation
//   VP_SAME(a, b, name)   : a named obligation "equal as real numbers" (native: equal up to rounding)
#ifndef VP_HPP
#define VP_HPP
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
extern "C" {
double      vp_real(const char* name, double lo, double hi);
double      vp_anyreal(const char* name);
long long   vp_int(const char* name, long long lo, long long hi);
unsigned long long vp_bits(const char* name, int width);
void        vp_str(std::string* out, const char* name, std::size_t minlen, std::size_t maxlen);
void        vp_assume(bool c);
void        vp_ensure(bool c, const char* name);
void        vp_same(double a, double b, const char* name);
void        vp_reach(const char* name);
long long   vp_fork(long long x, long long lo, long long hi);   // x, with the proof split into the cases lo..hi
void        vp_unroll(int n);                                   // loops without an induction are unrolled up to n times
void        vp_bounded(const char* why);                        // the contract covers a bounded domain: never counted as proved
}
inline std::string vp_string(const char* n, std::size_t lo, std::size_t hi){ std::string s; vp_str(&s, n, lo, hi); return s; }
// a size: cases lo..sym in the proof (a stated bound, so the contract is not counted as proved), lo..nat in the native runs
inline std::size_t vp_size(const char* n, long long lo, long long sym, long long nat){
  long long x = vp_int(n, lo, nat);
#ifdef VP_NATIVE
  (void)sym; return (std::size_t)x;
#else
  vp_bounded("sizes limited to the cases of vp_size in the contract"); vp_assume(x <= sym); return (std::size_t)vp_fork(x, lo, sym);
#endif
}
// a restriction of the proof only (a stated bound); the native runs are not restricted
#ifdef VP_NATIVE
#define VP_BOUND(c) ((void)0)
#else
#define VP_BOUND(c) (vp_bounded(#c), vp_assume(c))
#endif
#define VP_REQUIRES(c) vp_assume(c)
#define VP_ENSURES(c, n) vp_ensure((c), n)
#define VP_SAME(a, b, n) vp_same((a), (b), n)
#ifdef VP_NATIVE
#include <map>
std::map<std::string, void(*)()>& vp_registry();
struct vp_reg { vp_reg(const char* n, void(*f)()){ vp_registry()[n] = f; } };
#define VP_CONTRACT(id, name) extern "C" void contract_##id##_##name(); \
  static vp_reg vp_reg_##id##_##name("contract_" #id "_" #name, contract_##id##_##name); \
  extern "C" void contract_##id##_##name()
#else
#define VP_CONTRACT(id, name) extern "C" void contract_##id##_##name()
#endif
#endif
