// Checked narrowing between integer types.
// units: base
// bound: every value of the source type (all bit patterns), for all ordered pairs of {int8,uint8,int16,uint16,int32,uint32,int64,uint64}
// outside: floating-point source or target types
#include <lfs.h>
#include <lfs_try.h>
#include <lf/base/base.h>
#include <limits>
template <class TO, class FROM> static void pair() {
  FROM x = (FROM)lfs_int64("x");
  // representability in TO, decided on the mathematical values
  bool fits;
  if constexpr (std::is_signed_v<FROM>) {
    const int64_t v = x;
    if constexpr (std::is_signed_v<TO>) fits = v >= (int64_t)std::numeric_limits<TO>::min() && v <= (int64_t)std::numeric_limits<TO>::max();
    else fits = v >= 0 && (uint64_t)v <= (uint64_t)std::numeric_limits<TO>::max();
  } else {
    const uint64_t v = x;
    fits = v <= (uint64_t)std::numeric_limits<TO>::max();
  }
  TO y = 0;
  bool ok = lfs_accepts_nx([&]() { y = lf::base::narrow<TO>(x); });
  lfs_assert(ok == fits, "narrow succeeds exactly if the value is representable");
  if (ok) {
    bool same;
    if constexpr (std::is_signed_v<FROM> == std::is_signed_v<TO>) same = (__int128)x == (__int128)y;
    else if constexpr (std::is_signed_v<FROM>) same = x >= 0 && (uint64_t)x == (uint64_t)y;
    else same = y >= 0 && (uint64_t)x == (uint64_t)y;
    lfs_assert(same, "narrow returns its argument unchanged");
  }
}
template <class FROM> static void all() {
  switch (lfs_choice("to", 8)) {
    case 0: pair<int8_t, FROM>(); break;
    case 1: pair<uint8_t, FROM>(); break;
    case 2: pair<int16_t, FROM>(); break;
    case 3: pair<uint16_t, FROM>(); break;
    case 4: pair<int32_t, FROM>(); break;
    case 5: pair<uint32_t, FROM>(); break;
    case 6: pair<int64_t, FROM>(); break;
    default: pair<uint64_t, FROM>();
  }
}
LFS_CASE(from_i8) { all<int8_t>(); }
LFS_CASE(from_u8) { all<uint8_t>(); }
LFS_CASE(from_i16) { all<int16_t>(); }
LFS_CASE(from_u16) { all<uint16_t>(); }
LFS_CASE(from_i32) { all<int32_t>(); }
LFS_CASE(from_u32) { all<uint32_t>(); }
LFS_CASE(from_i64) { all<int64_t>(); }
LFS_CASE(from_u64) { all<uint64_t>(); }
