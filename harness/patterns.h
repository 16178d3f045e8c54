// All admissible refinement patterns with the edges each of them splits (documented in hybrid2d_refinement_pattern.h).
#pragma once
#include "geo.h"
namespace harness {
struct Pat { lf::refinement::RefPat pat; int anchor; unsigned split; };  // split: bit mask of split edges
inline std::vector<Pat> patternsOf(int nv) {
  using namespace lf::refinement;
  std::vector<Pat> r;
  if (nv == 2) { r.push_back({rp_copy, -1, 0}); r.push_back({rp_split, -1, 1}); return r; }
  r.push_back({rp_copy, -1, 0});
  unsigned all = (1u << nv) - 1;
  r.push_back({rp_regular, -1, all});
  r.push_back({rp_barycentric, -1, all});
  for (int a = 0; a < nv; a++) {
    auto e = [&](int i) { return 1u << ((a + i) % nv); };
    if (nv == 3) {
      r.push_back({rp_bisect, a, e(0)});
      r.push_back({rp_trisect, a, e(0) | e(1)});
      r.push_back({rp_trisect_left, a, e(0) | e(2)});
      r.push_back({rp_quadsect, a, all});
    } else {
      r.push_back({rp_bisect, a, e(0) | e(2)});
      r.push_back({rp_split, a, e(0) | e(2)});
      r.push_back({rp_trisect, a, e(0)});
      r.push_back({rp_quadsect, a, e(0) | e(1)});
      r.push_back({rp_threeedge, a, e(0) | e(1) | e(3)});
    }
  }
  return r;
}
inline lf::refinement::Hybrid2DRefinementPattern makePattern(int nv, const Pat& p) {
  using namespace lf::refinement;
  auto re = nv == 1 ? lf::base::RefEl::kPoint() : nv == 2 ? lf::base::RefEl::kSegment() : nv == 3 ? lf::base::RefEl::kTria() : lf::base::RefEl::kQuad();
  if (p.anchor >= 0) return Hybrid2DRefinementPattern(re, p.pat, p.anchor);
  return Hybrid2DRefinementPattern(re, p.pat);
}
inline Mat refCorners(int nv) {
  if (nv == 1) return Mat(0, 1);
  if (nv == 2) { Mat m(1, 2); m << 0, 1; return m; }
  if (nv == 3) { Mat m(2, 3); m << 0, 1, 0, 0, 0, 1; return m; }
  Mat m(2, 4); m << 0, 1, 1, 0, 0, 0, 1, 1; return m;
}
}  // namespace harness
