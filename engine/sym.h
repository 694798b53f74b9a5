// Harness API.  The same harness is compiled twice: instrumented (symbolic) and native (replay).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
// bounded integer input lo..hi (inclusive)
int64_t sym_int(const char *name, int64_t lo, int64_t hi);
// arbitrary bit patterns
double   sym_f64(const char *name);
uint32_t sym_u32(const char *name);
uint64_t sym_u64(const char *name);
[[noreturn]] void sym_violation(const char *msg);
[[noreturn]] void sym_reject(void);        // assumption failed
[[noreturn]] void sym_done(void);
void sym_reach(const char *tag);           // vacuity witness: this point was reached
void sym_ideal(int on);                    // oracle arithmetic: exact reals (no rounding bookkeeping)
void sym_note(const char *key, double v);  // printed in replay mode
}
#ifdef SYM_MEM   /* memory safety only: a broken property of another kind ends the path */
#define sym_violation(msg) sym_done()
#endif
#define sym_assert(c, msg) do{ if(!(c)) sym_violation(msg); }while(0)
#define sym_assume(c) do{ if(!(c)) sym_reject(); }while(0)
static inline double sym_grid(const char*n,int64_t lo,int64_t hi,double unit){ return (double)sym_int(n,lo,hi)*unit; }
