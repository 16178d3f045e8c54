// Refinement patterns tile the reference cell.
// units: base geo1 geo2 geo3 geo4 refpat
// bound: every pattern and anchor of segment, triangle and quadrilateral; any point of the reference cell (outside the child edges)
// outside: lattice constants other than 6 (not constructible through Hybrid2DRefinementPattern)
#include "patterns.h"
#include <set>
using namespace harness;
typedef std::pair<int, int> P2;
typedef std::set<P2> Edge;  // unordered pair of lattice points
static void run(int nv) {
  auto pats = patternsOf(nv);
  Pat pt = pats[lfs_choice("pattern", (int)pats.size())];
  auto rp = makePattern(nv, pt);
  const int L = rp.LatticeConst();
  auto cells = rp.ChildPolygons(0), edges = rp.ChildPolygons(1), points = rp.ChildPolygons(2);
  lfs_assert(cells.size() == rp.NumChildren(0), "number of child cells");
  lfs_assert(edges.size() == rp.NumChildren(1), "number of interior edges");
  lfs_assert(points.size() == rp.NumChildren(2), "number of interior points");
  // every point of the reference cell lies in exactly one child cell
  double x = lfs_real("x", 0, 1), y = lfs_real("y", 0, 1);
  if (nv == 3) lfs_assume_ge(1 - x, y);
  int hits = 0, strict = 0;
  for (auto& p : cells) {
    lfs_assert(p.rows() == 2 && (p.cols() == 3 || p.cols() == 4), "child cells are triangles or quadrilaterals");
    const int n = p.cols();
    long area = 0;
    for (int i = 0; i < n; i++) { int j = (i + 1) % n; area += (long)p(0, i) * p(1, j) - (long)p(1, i) * p(0, j); }
    lfs_assert(area != 0, "child cells are not degenerate");
    const double s = area > 0 ? 1 : -1;
    bool in = true, inside = true;
    for (int i = 0; i < n; i++) {
      int j = (i + 1) % n, k = (i + 2) % n;
      long turn = (long)(p(0, j) - p(0, i)) * (p(1, k) - p(1, j)) - (long)(p(1, j) - p(1, i)) * (p(0, k) - p(0, j));
      lfs_assert(turn * s > 0, "child cells are strictly convex with consistently ordered corners");
      lfs_assert(p(0, i) >= 0 && p(1, i) >= 0 && (nv == 3 ? p(0, i) + p(1, i) <= L : (p(0, i) <= L && p(1, i) <= L)), "child cell inside the reference cell");
      const double side = s * ((p(0, j) - p(0, i)) * (y * L - p(1, i)) - (p(1, j) - p(1, i)) * (x * L - p(0, i)));
      if (side < -1e-9) in = inside = false;
      else if (side <= 1e-9) inside = false;
      if (!in) break;
    }
    hits += in; strict += inside;
  }
  lfs_assert(hits >= 1, "every point lies in a child cell");
  lfs_assert(strict <= 1, "no point lies inside two child cells");
  // edges: child cell edges are interior (shared by two children, listed by the pattern) or lie on the boundary
  std::multiset<Edge> ce;
  std::set<P2> verts;
  for (auto& p : cells)
    for (int i = 0; i < p.cols(); i++) { int j = (i + 1) % p.cols(); ce.insert(Edge{P2(p(0, i), p(1, i)), P2(p(0, j), p(1, j))}); verts.insert(P2(p(0, i), p(1, i))); }
  std::set<Edge> ie;
  for (auto& e : edges) {
    lfs_assert(e.rows() == 2 && e.cols() == 2, "interior edges have two end points");
    Edge q{P2(e(0, 0), e(1, 0)), P2(e(0, 1), e(1, 1))};
    lfs_assert(ie.insert(q).second, "interior edges are distinct");
    lfs_assert(ce.count(q) == 2, "an interior edge is shared by exactly two child cells");
  }
  auto onEdge = [&](const P2& p, int i) {  // position along boundary edge i in 0..L or -1
    Mat rc = refCorners(nv);
    int a = i, b = (i + 1) % nv;
    int ax = (int)rc(0, a) * L, ay = (int)rc(1, a) * L, bx = (int)rc(0, b) * L, by = (int)rc(1, b) * L;
    for (int t = 0; t <= L; t++) if (p.first * L == ax * (L - t) + bx * t && p.second * L == ay * (L - t) + by * t) return t;
    return -1;
  };
  std::vector<std::set<std::pair<int, int>>> seg(nv);
  for (auto& e : ce) {
    if (ie.count(e)) continue;
    lfs_assert(ce.count(e) == 1, "an edge shared by two children is listed among the interior edges");
    P2 a = *e.begin(), b = *e.rbegin();
    bool found = false;
    for (int i = 0; i < nv; i++) {
      int s = onEdge(a, i), t = onEdge(b, i);
      if (s >= 0 && t >= 0) { found = true; seg[i].insert({std::min(s, t), std::max(s, t)}); }
    }
    lfs_assert(found, "a child edge that is not interior lies on an edge of the cell");
  }
  for (int i = 0; i < nv; i++) {
    if (pt.split >> i & 1) lfs_assert(seg[i] == std::set<std::pair<int, int>>{{0, L / 2}, {L / 2, L}}, "a split edge of the cell is covered by two halves");
    else lfs_assert(seg[i] == std::set<std::pair<int, int>>{{0, L}}, "an unsplit edge of the cell stays whole");
  }
  std::set<P2> ip;
  for (auto& p : points) {
    lfs_assert(p.rows() == 2 && p.cols() == 1, "interior points");
    lfs_assert(ip.insert(P2(p(0, 0), p(1, 0))).second, "interior points are distinct");
  }
  std::set<P2> inner;
  for (auto& v : verts) { bool bd = false; for (int i = 0; i < nv; i++) if (onEdge(v, i) >= 0) bd = true; if (!bd) inner.insert(v); }
  lfs_assert(ip == inner, "interior points are exactly the child vertices inside the cell");
}
LFS_CASE(tria) { run(3); }
LFS_CASE(quad) { run(4); }
LFS_CASE(segment) {
  Pat pt = patternsOf(2)[lfs_choice("pattern", 2)];
  auto rp = makePattern(2, pt);
  const int L = rp.LatticeConst();
  auto cells = rp.ChildPolygons(0), points = rp.ChildPolygons(1);
  lfs_assert(cells.size() == rp.NumChildren(0) && points.size() == rp.NumChildren(1), "numbers of children");
  double x = lfs_real("x", 0, 1);
  int hits = 0, strict = 0;
  for (auto& p : cells) {
    lfs_assert(p.rows() == 1 && p.cols() == 2, "child segments");
    int a = std::min(p(0, 0), p(0, 1)), b = std::max(p(0, 0), p(0, 1));
    lfs_assert(a < b && a >= 0 && b <= L, "child segment inside");
    if (x * L >= a - 1e-9 && x * L <= b + 1e-9) hits++;
    if (x * L > a + 1e-9 && x * L < b - 1e-9) strict++;
  }
  lfs_assert(hits >= 1 && strict <= 1, "every point lies in exactly one child segment");
  if (pt.split) lfs_assert(points.size() == 1 && points[0](0, 0) == L / 2 && cells.size() == 2, "a split segment has a midpoint");
  else lfs_assert(points.empty() && cells.size() == 1, "a copied segment has no interior point");
}
LFS_CASE(nil) {
  int nv = 1 + lfs_choice("nv", 4);
  Pat pt{lf::refinement::rp_nil, -1, 0};
  auto rp = makePattern(nv, pt);
  for (int c = 0; c <= (nv == 1 ? 0 : nv == 2 ? 1 : 2); c++) lfs_assert(rp.NumChildren(c) == 0 && rp.ChildPolygons(c).empty(), "no refinement, no children");
}
