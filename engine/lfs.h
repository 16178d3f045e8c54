// Interface between harnesses and the symbolic runtime (engine/rt.cc) or the concrete replay runtime (engine/replay.cc).
#pragma once
#include <cstdint>
extern "C" {
double lfs_real(const char* name, double lo, double hi);   // symbolic real in [lo,hi]
int32_t lfs_int(const char* name, int32_t lo, int32_t hi);  // symbolic 32-bit integer in [lo,hi]
int64_t lfs_int64(const char* name);                        // unconstrained symbolic 64-bit integer
int32_t lfs_bool(const char* name);                         // symbolic 0/1
int32_t lfs_choice(const char* name, int32_t n);            // symbolic in [0,n), made concrete by solver enumeration
int32_t lfs_concrete(int32_t v);                            // enumerate the values of v through the solver
void lfs_assume(int32_t cond);                              // restrict inputs (integer conditions)
void lfs_assume_ge(double a, double b);                     // restrict inputs to a >= b
void lfs_assert(int32_t cond, const char* msg);             // must hold for every value
void lfs_near(double a, double b, double tol, const char* msg);  // |a-b| <= tol for every value
void lfs_ge(double a, double b, const char* msg);           // a >= b for every value
void lfs_ge_tol(double a, double b, double tol, const char* msg);  // a >= b - tol for every value
void lfs_fail(const char* msg);                             // reaching this point is a violation
void lfs_note(const char* key, long v);                     // diagnostic counter
int lfs_is_symbolic(void);                                  // 1 under the symbolic runtime, 0 in replay
int lfs_thorough(void);
void lfs_register_case(const char* name, void (*fn)(), int tier);
// Runs a part of the harness in which an assertion failure / exception / abort of the code under test is allowed:
// returns 1 if it completed normally, 0 if the code refused its input.
}
#define LFS_CASE_T(NAME, TIER)                                             \
  static void NAME();                                                      \
  static struct NAME##_reg {                                               \
    NAME##_reg() { lfs_register_case(#NAME, &NAME, TIER); }                \
  } NAME##_reg_;                                                           \
  static void NAME()
#define LFS_CASE(NAME) LFS_CASE_T(NAME, 0)
#define LFS_CASE_THOROUGH(NAME) LFS_CASE_T(NAME, 1)
