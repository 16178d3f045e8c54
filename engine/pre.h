// Force-included into every instrumented or replayed translation unit.
#pragma once
#ifdef __cplusplus
extern "C" void lfs_assertion_failed(const char* expr, const char* file, long line, const char* msg);
#define eigen_assert(x) do { if (!(x)) lfs_assertion_failed(#x, __FILE__, __LINE__, "eigen"); } while (0)
#endif
