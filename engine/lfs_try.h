#pragma once
#include <type_traits>
struct LfsRefused {};
extern "C" int lfs_expect_refusal;
// true if f ran to completion, false if the code under test refused (assertion failure or exception)
template <class F> bool lfs_accepts(F&& f) {
  lfs_expect_refusal = 1;
  bool ok = true;
  try { f(); } catch (...) { ok = false; }
  lfs_expect_refusal = 0;
  return ok;
}
// the same for code that does not let exceptions through (noexcept): leaves by longjmp, without running destructors
extern "C" int lfs_run_guarded(void (*f)(void*), void* arg);
template <class F> bool lfs_accepts_nx(F&& f) {
  return lfs_run_guarded([](void* p) { (*static_cast<std::remove_reference_t<F>*>(p))(); }, &f);
}
