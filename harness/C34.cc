// Text dumps of a mesh (MATLAB, Matplotlib, TikZ) and of a hierarchy (MATLAB).
// units: core refine dump refu
// bound: seven small meshes with up to 7 nodes, 4 cells (triangles, quadrilaterals, mixed), cells listed from any first vertex, renumbered nodes; all sets of output options of TikZ; selectors that accept any subset of one kind of entities; hierarchies of two and three levels after regular refinement or marking of any one or two edges; file names of up to three arbitrary characters (dot, digits, letters and some signs) with or without extension
// outside: the digits of coordinates (fixed coordinates of up to four digits); the file system; the layout of the drawings (only positions, numbers and their assignment to entities are checked)
#include "refine.h"
#include <lf/io/write_matlab.h>
#include <lf/io/write_matplotlib.h>
#include <lf/io/write_tikz.h>
#include <lf/refinement/refutils.h>
#include "dump_stream.h"
#include <cstdlib>
#include <string>
using namespace harness;
typedef std::vector<double> Row;
static std::vector<std::string> lines(const std::string& t) {
  std::vector<std::string> r(1);
  for (char c : t) {
    if (c == '\n') r.emplace_back();
    else if (c != ' ' && c != '\r' && c != '\t') r.back().push_back(c);
  }
  return r;
}
static std::vector<Row> tableOf(const std::map<std::string, std::map<int, Row>>& m, const char* n) {
  std::vector<Row> r;
  auto it = m.find(n);
  if (it == m.end()) return r;
  int k = 0;
  for (auto& x : it->second) { lfs_assert(x.first == ++k, "rows are numbered from one"); r.push_back(x.second); }
  return r;
}
static Row numbers(const std::string& s) {
  Row r;
  const char* p = s.c_str();
  while (*p) {
    if ((*p >= '0' && *p <= '9') || *p == '-' || *p == '.') { char* e; r.push_back(std::strtod(p, &e)); if (e == p) { p++; } else p = e; }
    else p++;
  }
  return r;
}
// assignments NAME(row)=value; and NAME(row,:)=[values]; of a MATLAB file
static std::map<std::string, std::map<int, Row>> assignments(const std::vector<std::string>& ls) {
  std::map<std::string, std::map<int, Row>> m;
  for (size_t i = 1; i < ls.size(); i++) {
    const std::string& l = ls[i];
    const size_t a = l.find('('), e = l.find('=');
    if (l.empty() || l[0] == '%' || e == std::string::npos || a == std::string::npos || a > e) continue;
    const int row = std::atoi(l.c_str() + a + 1);
    auto& t = m[l.substr(0, a)];
    lfs_assert(!t.count(row), "every row is assigned once");
    t[row] = numbers(l.substr(e + 1));
  }
  return m;
}
static void near(double a, double b, const char* m) { lfs_assert(std::abs(a - b) < 2e-5, m); }
static std::string fileName(const char* ext, bool& has) {
  const int n = 1 + lfs_choice("length", 3);
  std::string s;
  for (int i = 0; i < n; i++) {
    const int c = lfs_int("char", 46, 122);  // dot, digits, letters, some signs
    lfs_assume(c != 47);
    s.push_back((char)c);
  }
  if (n >= 2) { if (s[n - 2] == '.') lfs_assume(s[n - 1] != 'm'); }
  has = lfs_choice("extension", 2);
  return has ? s + ext : s;
}
static std::shared_ptr<Mesh> someMesh(Topo& t, bool few = false) {
  const int id = lfs_choice("mesh", T_NUM);
  t = baseTopo(id);
  if (lfs_choice("renumber", 2)) renumber(t, 1 + id % 2, true);
  varyCells(t, false, few ? 1 : 2);
  lf::mesh::hybrid2d::MeshFactory f(2);
  Mat p = points(t, 2, 0);
  addPoints(f, p);
  for (auto& c : t.cells) addCell(f, c, straight(p, c));
  return f.Build();
}
// the content of a MATLAB dump describes the mesh
static void matlab(const std::string& text, const Mesh& m) {
  auto tab = assignments(lines(text));
  auto x = tableOf(tab, "x"), y = tableOf(tab, "y"), eds = tableOf(tab, "EDS"), tri = tableOf(tab, "TRI"), quad = tableOf(tab, "QUAD");
  Mat p = positions(m);
  lfs_assert(x.size() == m.NumEntities(2) && y.size() == x.size(), "one position per node");
  for (size_t i = 0; i < x.size(); i++) {
    lfs_assert(x[i].size() == 1 && y[i].size() == 1, "a coordinate is one number");
    near(x[i][0], p(0, i), "x coordinate of a node");
    near(y[i][0], p(1, i), "y coordinate of a node");
  }
  lfs_assert(eds.size() == m.NumEntities(1), "one row per edge");
  for (auto* e : m.Entities(1)) {
    auto& r = eds[m.Index(*e)];
    lfs_assert(r.size() == 2, "an edge has two endpoints");
    for (int k = 0; k < 2; k++) lfs_assert(r[k] == m.Index(*e->SubEntities(1)[k]) + 1, "endpoint of an edge");
  }
  std::set<U> seen;
  for (int q = 0; q < 2; q++)
    for (auto& r : q ? quad : tri) {
      lfs_assert(r.size() == 4u + q, "entries of a cell");
      const U i = (U)r.back();
      lfs_assert(r.back() >= 0 && i < m.NumEntities(0) && seen.insert(i).second, "index of a cell");
      auto* c = m.EntityByIndex(0, i);
      lfs_assert(c->RefEl().NumNodes() == 3u + q, "type of a cell");
      for (int k = 0; k < 3 + q; k++) lfs_assert(r[k] == m.Index(*c->SubEntities(2)[k]) + 1, "node of a cell");
    }
  lfs_assert(seen.size() == m.NumEntities(0), "every cell is listed once");
}
static void functionName(const std::string& text, const std::string& name) {
  std::string l;
  for (char c : text) { if (c == '\n') break; if (c != ' ') l.push_back(c); }
  size_t e = 0;
  while (e < l.size() && l[e] != ']') e++;
  lfs_assert(e + 2 < l.size() && l[e + 1] == '=', "the file starts with the declaration of a function");
  e += 2;
  lfs_assert(l.size() == e + name.size() + 2, "length of the name of the function");
  for (size_t i = 0; i < name.size() && e + i < l.size(); i++) lfs_assert(l[e + i] == name[i], "name of the function");
}
static void opened(const std::string& name, const std::string& base, const char* ext) {
  const std::string want = base + ext;
  lfs_assert(name.size() == want.size(), "the file name gets the extension exactly if it lacks it");
  for (size_t i = 0; i < want.size() && i < name.size(); i++) lfs_assert(name[i] == want[i], "file name");
}
LFS_CASE(matlab_mesh) {
  Topo t;
  auto m = someMesh(t);
  lf::io::writeMatlab(*m, "abc.m");
  auto& f = std::lfs_dumpbuf::files();
  lfs_assert(f.size() == 1, "one file is written");
  opened(f[0]->name, "abc", ".m");
  functionName(f[0]->text, "abc");
  matlab(f[0]->text, *m);
}
static std::shared_ptr<Mesh> oneCell() {
  Topo t = baseTopo(T_TRI);
  lf::mesh::hybrid2d::MeshFactory f(2);
  Mat p = points(t, 2, 0);
  addPoints(f, p);
  addCell(f, t.cells[0], straight(p, t.cells[0]));
  return f.Build();
}
LFS_CASE(names) {
  auto m = oneCell();
  const int kind = lfs_choice("kind", 3);
  bool has;
  const char* ext = kind == 1 ? ".csv" : ".m";
  const std::string n = fileName(ext, has);
  const std::string base = has ? n.substr(0, n.size() - std::string(ext).size()) : n;
  auto& f = std::lfs_dumpbuf::files();
  if (kind == 0) lf::io::writeMatlab(*m, n);
  if (kind == 1) lf::io::writeMatplotlib(*m, n);
  if (kind == 2) {
    auto h = hierarchy(m);
    h->RefineRegular();
    lf::refinement::WriteMatlabLevel(*h, 1, n);
  }
  lfs_assert(f.size() == 1, "one file is written");
  opened(f[0]->name, base, ext);
  if (kind != 1) functionName(f[0]->text, base);
}
LFS_CASE(matplotlib_mesh) {
  Topo t;
  auto m = someMesh(t);
  lf::io::writeMatplotlib(*m, "abc.csv");
  auto& f = std::lfs_dumpbuf::files();
  lfs_assert(f.size() == 1, "one file is written");
  opened(f[0]->name, "abc", ".csv");
  Mat p = positions(*m);
  std::set<std::pair<int, int>> seen;
  for (auto& l : lines(f[0]->text)) {
    if (l.empty()) continue;
    Row r = numbers(l);
    lfs_assert(r.size() >= 4 && r[0] >= 0 && r[0] <= 2, "codimension of an entity");
    const int cd = (int)r[0], i = (int)r[1];
    lfs_assert(i >= 0 && i < (int)m->NumEntities(cd) && seen.insert({cd, i}).second, "index of an entity");
    auto* e = m->EntityByIndex(cd, i);
    if (cd == 2) {
      lfs_assert(r.size() == 4, "a node has two coordinates");
      near(r[2], p(0, i), "x coordinate of a node");
      near(r[3], p(1, i), "y coordinate of a node");
      continue;
    }
    auto sub = e->SubEntities(1);
    lfs_assert(r.size() == 2 + sub.size(), "number of endpoints or edges");
    for (size_t k = 0; k < sub.size(); k++) lfs_assert(r[2 + k] == m->Index(*sub[k]), "endpoint or edge");
  }
  lfs_assert(seen.size() == m->NumEntities(0) + m->NumEntities(1) + m->NumEntities(2), "every entity is listed once");
}
// --- TikZ
struct Draw { std::vector<std::array<double, 2>> p; std::vector<std::string> label; bool arrow = false, cycle = false, used = false; };
static std::vector<Draw> draws(const std::string& text) {
  std::vector<Draw> r;
  for (auto& l : lines(text)) {
    if (l.find("\\draw") == std::string::npos) continue;
    Draw d;
    int sq = 0;
    d.cycle = l.find("cycle") != std::string::npos;
    d.arrow = l.find("->") != std::string::npos;
    for (size_t i = 0; i < l.size(); i++) {
      if (l[i] == '[') sq++;
      if (l[i] == ']') sq--;
      if (sq) continue;
      if (l[i] == '(') { size_t e = l.find(')', i); Row x = numbers(l.substr(i + 1, e - i - 1)); lfs_assert(x.size() == 2, "a point has two coordinates"); d.p.push_back({x[0], x[1]}); }
      if (l[i] == '{') { size_t e = l.find('}', i); d.label.push_back(l.substr(i + 1, e - i - 1)); }
    }
    r.push_back(d);
  }
  return r;
}
// the points are the given ones, moved towards their centre by a common factor
static bool shrunk(const Draw& d, const Mat& v, bool exact) {
  if ((int)d.p.size() != v.cols()) return false;
  double c[2] = {0, 0}, s = 1;
  for (int j = 0; j < v.cols(); j++) for (int k = 0; k < 2; k++) c[k] += v(k, j) / v.cols();
  if (!exact) {
    double num = 0, den = 0;
    for (int j = 0; j < v.cols(); j++) for (int k = 0; k < 2; k++) { num += (d.p[j][k] - c[k]) * (v(k, j) - c[k]); den += (v(k, j) - c[k]) * (v(k, j) - c[k]); }
    s = num / den;
    if (s < 0.1 || s > 1.0001) return false;
  }
  for (int j = 0; j < v.cols(); j++) for (int k = 0; k < 2; k++) if (std::abs(d.p[j][k] - (c[k] + s * (v(k, j) - c[k]))) > 3e-5) return false;
  return true;
}
static void take(std::vector<Draw>& ds, const Mat& v, bool exact, bool cycle, bool arrow, const std::vector<std::string>& label, const char* m) {
  int hit = 0;
  for (auto& d : ds)
    if (!d.used && !hit && d.cycle == cycle && d.arrow == arrow && d.label == label && shrunk(d, v, exact)) { d.used = true; hit++; }
  lfs_assert(hit == 1, m);
}
static void tikz(const Mesh& m, const std::string& text, int ctrl, const std::function<bool(const Entity&)>& sel) {
  auto ds = draws(text);
  Mat p = positions(m);
  for (auto* e : m.Entities(2)) {
    if (!sel(*e)) continue;
    const U i = m.Index(*e);
    take(ds, p.col(i), true, false, false, {ctrl & 8 ? std::to_string(i) : "*"}, "every node is drawn at its position");
  }
  for (int cd = 0; cd < 2; cd++)
    for (auto* e : m.Entities(cd)) {
      if (!sel(*e)) continue;
      const U i = m.Index(*e);
      std::vector<U> nd;
      for (auto* n : e->SubEntities(2 - cd)) nd.push_back(m.Index(*n));
      Mat v = corners(p, nd);
      if (cd == 1) {
        std::vector<std::string> lab;
        if (ctrl & 16) lab.push_back(std::to_string(i));
        take(ds, v, !(ctrl & 32), false, (ctrl & 32) != 0, lab, "every edge is drawn from its first to its second node");
        continue;
      }
      if (!(ctrl & 1)) continue;
      std::vector<std::string> lab;
      if (ctrl & 4) for (size_t k = 0; k < nd.size(); k++) lab.push_back(std::to_string(k));
      take(ds, v, false, true, false, lab, "every cell is drawn with its corners in order");
      if (ctrl & 2) {
        Mat c = v.col(0) * 0;
        for (int j = 0; j < v.cols(); j++) c += v.col(j) / v.cols();
        take(ds, c, true, false, false, {std::to_string(i)}, "the number of a cell is written at its centre");
      }
    }
  for (auto& d : ds) lfs_assert(d.used, "nothing else is drawn");
  const bool pre = ctrl & 64;
  lfs_assert((text.find("\\begin{document}") != std::string::npos) == pre && (text.find("\\end{document}") != std::string::npos) == pre, "the preamble is written exactly if wanted");
  lfs_assert(text.find("\\begin{tikzpicture}") != std::string::npos && text.find("\\end{tikzpicture}") != std::string::npos, "the drawing is enclosed in its environment");
}
LFS_CASE(tikz_options) {
  const int id = lfs_choice("mesh", 2);
  Topo t = baseTopo(id ? T_TRIQUAD : T_TRITRI);
  varyCells(t, false, 1);
  lf::mesh::hybrid2d::MeshFactory f(2);
  Mat p = points(t, 2, 0);
  addPoints(f, p);
  for (auto& c : t.cells) addCell(f, c, straight(p, c));
  auto m = f.Build();
  const int ctrl = lfs_int("options", 0, 127);
  lfs_assert(lf::io::writeTikZ(*m, "abc.tex", (lf::io::TikzOutputCtrl)ctrl), "success is reported");
  auto& fs = std::lfs_dumpbuf::files();
  lfs_assert(fs.size() == 1 && fs[0]->name == "abc.tex", "one file of the given name is written");
  tikz(*m, fs[0]->text, ctrl, [](const Entity&) { return true; });
}
LFS_CASE(tikz_mesh) {
  Topo t;
  auto m = someMesh(t, true);
  const int ctrl = lfs_choice("numbers", 2) ? 31 : 37;
  lfs_assert(lf::io::writeTikZ(*m, "abc.tex", (lf::io::TikzOutputCtrl)ctrl), "success is reported");
  tikz(*m, std::lfs_dumpbuf::files().at(0)->text, ctrl, [](const Entity&) { return true; });
}
LFS_CASE(tikz_selector) {
  Topo t = baseTopo(T_TRIQUAD);
  lf::mesh::hybrid2d::MeshFactory f(2);
  Mat p = points(t, 2, 0);
  addPoints(f, p);
  for (auto& c : t.cells) addCell(f, c, straight(p, c));
  auto m = f.Build();
  const U cd = lfs_choice("codim", 3);
  bool want[3][8];
  for (U c = 0; c < 3; c++) for (U i = 0; i < m->NumEntities(c); i++) want[c][i] = c == cd ? lfs_choice("selected", 2) : (i + c) % 2;
  auto sel = [&](const Entity& e) { return want[e.Codim()][m->Index(e)]; };
  const int ctrl = lfs_choice("numbers", 2) ? 31 : 37;
  lfs_assert(lf::io::writeTikZ(*m, "abc.tex", sel, (lf::io::TikzOutputCtrl)ctrl), "success is reported");
  tikz(*m, std::lfs_dumpbuf::files().at(0)->text, ctrl, sel);
}
// --- hierarchies
static void parents(const std::string& text, const Hier& h, U level) {
  auto tab = assignments(lines(text));
  const char* n[3] = {"CELLPAR", "EDPAR", "PTPAR"};
  auto num = [](U i) { return i == kNil ? -1.0 : (double)i; };
  for (U cd = 0; cd < 3; cd++) {
    auto r = tableOf(tab, n[cd]);
    auto& info = h.ParentInfos(level, cd);
    lfs_assert(r.size() == h.getMesh(level)->NumEntities(cd), "one row per entity");
    for (size_t i = 0; i < r.size(); i++) {
      lfs_assert(r[i].size() == (cd ? 2u : 3u), "entries of a row");
      lfs_assert(r[i][0] == num(info[i].parent_index), "index of the parent");
      lfs_assert(r[i][1] == num(info[i].child_number), "number of the child");
      if (cd == 0) lfs_assert(r[i][2] == num(h.RefinementEdges(level)[i]), "refinement edge of a cell");
    }
  }
}
LFS_CASE(matlab_hierarchy) {
  Topo t = baseTopo(lfs_choice("mesh", 2) ? T_TRIQUAD : T_TRITRI);
  lf::mesh::hybrid2d::MeshFactory f(2);
  Mat p = points(t, 2, 0);
  addPoints(f, p);
  for (auto& c : t.cells) addCell(f, c, straight(p, c));
  auto m = f.Build();
  auto h = hierarchy(m);
  const U a = lfs_choice("marked", 6), b = lfs_choice("marked", 6);
  if (a == 5) h->RefineRegular(b % 2 ? RefPat::rp_barycentric : RefPat::rp_regular);
  else refineMarked(*h, {a, b});
  const bool three = lfs_choice("levels", 2);
  if (three) refineMarked(*h, {0, 3});
  lf::refinement::WriteMatlab(*h, "hm");
  auto& fs = std::lfs_dumpbuf::files();
  const U L = three ? 3 : 2;
  lfs_assert(fs.size() == 2 * L, "two files per level");
  for (U l = 0; l < L; l++) {
    const std::string base = "hm_L" + std::to_string(l);
    bool ma = false, pa = false;
    for (auto& x : fs) {
      if (x->name == base + ".m") { ma = true; matlab(x->text, *h->getMesh(l)); functionName(x->text, base); }
      if (x->name == base + "_pi.m") { pa = true; parents(x->text, *h, l); functionName(x->text, base + "_pi"); }
    }
    lfs_assert(ma && pa, "names of the files of a level");
  }
}
