// Replaces lib/lf/base/lf_assert.cc: a failed assertion of the code under test is reported to the runtime
// (a violation) unless the harness declared that the code may refuse its input.
#include <cstdlib>
#include <csetjmp>
#include <string>
#include "lfs_try.h"
extern "C" void lfs_assertion_failed(const char* expr, const char* file, long line, const char* msg);
extern "C" int lfs_expect_refusal;
int lfs_expect_refusal = 0;
extern "C" { extern unsigned __lfs_arg[256]; extern unsigned __lfs_ret[256]; }
static jmp_buf guard;
extern "C" int lfs_run_guarded(void (*f)(void*), void* arg) {
  lfs_expect_refusal = 2;
  volatile int ok = 1;
  for (int i = 0; i < 8; i++) __lfs_arg[i] = 0;
  if (setjmp(guard) == 0) f(arg); else ok = 0;
  lfs_expect_refusal = 0;
  for (int i = 0; i < 8; i++) __lfs_ret[i] = __lfs_arg[i] = 0;
  return ok;
}
namespace lf::base {
void AssertionFailed(const std::string& expr, const std::string& file, long line, const std::string& msg) {
  if (lfs_expect_refusal == 2) { lfs_expect_refusal = 0; longjmp(guard, 1); }
  if (lfs_expect_refusal) throw LfsRefused{};
  lfs_assertion_failed(expr.c_str(), file.c_str(), line, msg.c_str());
}
}
namespace boost {
void assertion_failed_msg(char const* expr, char const* msg, char const* function, char const* file, long line) { lf::base::AssertionFailed(expr, file, line, msg); std::abort(); }
void assertion_failed(char const* expr, char const* function, char const* file, long line) { lf::base::AssertionFailed(expr, file, line, function); std::abort(); }
}
