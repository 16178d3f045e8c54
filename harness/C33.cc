// Parsing of Gmsh files: text and binary, formats 2.2 and 4.1.
// units: core gmsh
// bound: files with up to 2 physical names (with one arbitrary printable character each), up to 4 nodes, 5 elements of up to 5 types in up to 3 blocks with 2 to 4 tags, entities, partitioned entities, periodic links (with and without transformation), ghost elements, and any section of another kind before and after each of them; every number of the format that is not a count or type is arbitrary (binary, both byte orders: every 31-bit (2.2) or 63-bit (4.1) integer, every floating point value in [-8,8]; text: every number with two digits, positive or negative where allowed, fixed floating point values and every decimal digit in one place)
// outside: the header of the file and reading it from the file system; malformed files; text numbers with more digits; parametric nodes
#include <lfs.h>
#include <lfs_try.h>
#include <lf/io/gmsh_file_v2.h>
#include <lf/io/gmsh_file_v4.h>
#include <cstring>
#include <string>
#include <vector>
using namespace lf::io;
typedef std::vector<double> D3;
struct Emit {
  bool bin, big;
  std::string s;
  int nreal = 0;
  bool symReal = true;
  void raw(const void* p, int n) {
    unsigned char b[8];
    std::memcpy(b, p, n);
    for (int i = 0; i < n; i++) s.push_back((char)b[big ? n - 1 - i : i]);
  }
  void lit(const char* t) { s += t; }
  void sep(const char* t) { if (!bin) s += t; }
  // concrete integers of 4 and 8 bytes
  void c4(int v) { if (bin) raw(&v, 4); else s += std::to_string(v); }
  void c8(size_t v) { if (bin) raw(&v, 8); else s += std::to_string(v); }
  int digits() {
    const int a = lfs_int("digit", 1, 9), b = lfs_int("digit", 0, 9);
    s.push_back((char)('0' + a));
    s.push_back((char)('0' + b));
    return 10 * a + b;
  }
  int i4(bool neg = false) {
    if (bin) { const int v = lfs_int("int", neg ? -2147483647 : 0, 2147483647); raw(&v, 4); return v; }
    if (neg) s.push_back('-');
    const int v = digits();
    return neg ? -v : v;
  }
  size_t i8() {
    if (!bin) return digits();
    const int hi = lfs_int("int", 0, 2147483647), lo = lfs_int("int", 0, 2147483647);
    const size_t v = ((size_t)hi << 32) + lo;
    raw(&v, 8);
    return v;
  }
  double real() {
    if (bin) { const double v = lfs_real("real", -8, 8); raw(&v, 8); return v; }
    static const char* t[] = {"0", "-1.5", "0.0625", "2.5e-3", "-3e2", "12.75", "1", "7.125E+1", "-0.5"};
    static const double d[] = {0, -1.5, 0.0625, 2.5e-3, -3e2, 12.75, 1, 71.25, -0.5};
    const int k = nreal++ % 9;
    if (k == 3 && symReal) {
      symReal = false;
      const int a = lfs_choice("decimal", 10);
      s += "4."; s.push_back((char)('0' + a)); s.push_back('5');
      return 4 + 0.1 * a + 0.05;
    }
    s += t[k];
    return d[k];
  }
  D3 vec3() { D3 v; for (int i = 0; i < 3; i++) { v.push_back(real()); if (i < 2) sep(" "); } return v; }
  std::string name(int i) {
    static const char* t[] = {" b 1", "$End", "A's_7-"};
    std::string n = t[i];
    if (i != 1) {
      const int c = lfs_int("char", 32, 126);  // any printable character but the quotation mark
      lfs_assume(c != 34);
      n.insert(n.begin() + i, (char)c);
    }
    return n;
  }
  void other(int k) {  // a section the format does not know
    if (k == 1) lit("$Comments\nmade by hand, 1 2 3\n$EndComments\n");
    if (k == 2) lit("$Param\n0 0\n$EndParam\n$X\n\n$EndX\n");
  }
};
static void eq(const Eigen::Vector3d& a, const D3& b, const char* m) { for (int i = 0; i < 3; i++) lfs_near(a(i), b[i], 1e-12, m); }
template <class T> static void ints(const std::vector<T>& a, const std::vector<T>& b, const char* m) {
  lfs_assert(a.size() == b.size(), m);
  for (size_t i = 0; i < a.size() && i < b.size(); i++) lfs_assert(a[i] == b[i], m);
}
struct Names { std::vector<int> dim, nr; std::vector<std::string> name; };
static Names names(Emit& e, int n) {
  Names r;
  if (!n) return r;
  const bool bin = e.bin;
  e.bin = false;  // this section is text in all formats
  e.lit("$PhysicalNames\n"); e.c8(n); e.lit("\n");
  for (int i = 0; i < n; i++) {
    r.dim.push_back(e.i4()); e.lit(" ");
    r.nr.push_back(e.i4()); e.lit(" \"");
    r.name.push_back(e.name((n + i) % 3));
    e.s += r.name.back();
    e.lit("\"\n");
  }
  e.lit("$EndPhysicalNames\n");
  e.bin = bin;
  return r;
}
static void sameName(const std::string& a, const std::string& b) {
  lfs_assert(a.size() == b.size(), "length of a physical name");
  for (size_t i = 0; i < a.size() && i < b.size(); i++) lfs_assert(a[i] == b[i], "physical name");
}
// element types of the tests: type, number of nodes
static const int ET[][2] = {{15, 1}, {1, 2}, {2, 3}, {3, 4}, {8, 3}, {9, 6}, {10, 9}, {16, 8}, {4, 4}, {26, 4}, {21, 10}};
static void v2(int mode) {
  Emit e{mode > 0, mode == 2};
  const int other = lfs_choice("other", 3), shape = lfs_choice("shape", 4), periodic = (other + shape) % 3, nn = 1 + shape % 2 * 3;
  e.lit("\n");
  e.other(other);
  Names nm = names(e, (shape + 1) % 3);
  if (nm.dim.size()) e.other(other == 1 ? 1 : 0);
  e.lit("$Nodes\n"); e.s += std::to_string(nn); e.lit("\n");
  std::vector<unsigned> num;
  std::vector<D3> pos;
  for (int i = 0; i < nn; i++) { num.push_back(e.i4()); e.sep(" "); pos.push_back(e.vec3()); e.sep("\n"); }
  e.sep(""); if (e.bin) e.lit("\n");
  e.lit("$EndNodes\n");
  e.other(other == 2 ? 2 : 0);
  struct El { unsigned nr; int type, phys, elem; std::vector<int> part; std::vector<unsigned> nodes; };
  std::vector<El> el;
  e.lit("$Elements\n");
  const int blocks[4][3][3] = {{{0, 1, 2}, {2, 2, 2}, {1, 2, 2}}, {{3, 1, 2}, {4, 1, 3}, {5, 1, 4}}, {{6, 1, 4}, {7, 1, 2}, {0, 1, 4}}, {{8, 1, 2}, {9, 1, 2}, {10, 1, 3}}};  // type, number, tags
  int total = 0;
  for (auto& b : blocks[shape]) total += b[1];
  e.s += std::to_string(total); e.lit("\n");
  for (auto& b : blocks[shape]) {
    if (e.bin) { e.c4(ET[b[0]][0]); e.c4(b[1]); e.c4(b[2]); }
    for (int i = 0; i < b[1]; i++) {
      El x;
      x.nr = e.i4(); e.sep(" ");
      x.type = ET[b[0]][0];
      if (!e.bin) { e.c4(x.type); e.lit(" "); e.c4(b[2]); e.lit(" "); }
      x.phys = e.i4(); e.sep(" ");
      x.elem = e.i4(); e.sep(" ");
      if (b[2] > 2) { e.c4(b[2] - 3); e.sep(" "); }
      for (int k = 3; k < b[2]; k++) { x.part.push_back(e.i4(true)); e.sep(" "); }
      for (int k = 0; k < ET[b[0]][1]; k++) { if (k) e.sep(" "); x.nodes.push_back(e.i4()); }
      if (!e.bin && other == 1) e.lit(" ");
      e.sep("\n");
      el.push_back(x);
    }
  }
  if (e.bin) e.lit("\n");
  e.lit("$EndElements\n");
  e.other(other);
  struct Per { int d, s, m; std::vector<std::pair<unsigned, unsigned>> n; };
  std::vector<Per> per;
  if (periodic) {
    const bool bin = e.bin;
    e.bin = false;
    e.lit("$Periodic\n"); e.s += std::to_string(periodic); e.lit("\n");
    for (int i = 0; i < periodic; i++) {
      Per p;
      p.d = e.i4(); e.lit(" "); p.s = e.i4(); e.lit(" "); p.m = e.i4(i == 1); e.lit("\n");
      e.s += std::to_string(1 + i); e.lit("\n");
      for (int k = 0; k <= i; k++) { const unsigned a = e.i4(); e.lit(" "); const unsigned b = e.i4(); e.lit("\n"); p.n.push_back({a, b}); }
      per.push_back(p);
    }
    e.lit("$EndPeriodic\n");
    e.bin = bin;
    e.other(other);
  }
  GMshFileV2 f = readGmshFileV2(e.s.cbegin(), e.s.cend(), "2.2", e.bin, 8, e.big ? 1 << 24 : 1, "f");
  lfs_assert(f.IsBinary == e.bin && f.VersionNumber == "2.2", "header");
  lfs_assert(f.PhysicalEntities.size() == nm.dim.size(), "number of physical names");
  for (size_t i = 0; i < nm.dim.size(); i++) {
    lfs_assert(f.PhysicalEntities[i].Dimension == nm.dim[i], "dimension of a physical name");
    lfs_assert(f.PhysicalEntities[i].Number == nm.nr[i], "number of a physical name");
    sameName(f.PhysicalEntities[i].Name, nm.name[i]);
  }
  lfs_assert((int)f.Nodes.size() == nn, "number of nodes");
  for (int i = 0; i < nn; i++) { lfs_assert(f.Nodes[i].first == num[i], "number of a node"); eq(f.Nodes[i].second, pos[i], "position of a node"); }
  lfs_assert(f.Elements.size() == el.size(), "number of elements");
  for (size_t i = 0; i < el.size(); i++) {
    auto& x = f.Elements[i];
    lfs_assert(x.Number == el[i].nr, "number of an element");
    lfs_assert((int)x.Type == el[i].type, "type of an element");
    lfs_assert(x.PhysicalEntityNr == el[i].phys, "physical entity of an element");
    lfs_assert(x.ElementaryEntityNr == el[i].elem, "elementary entity of an element");
    ints(x.MeshPartitions, el[i].part, "partitions of an element");
    ints(x.NodeNumbers, el[i].nodes, "nodes of an element");
  }
  lfs_assert(f.Periodic.size() == per.size(), "number of periodic entities");
  for (size_t i = 0; i < per.size(); i++) {
    auto& x = f.Periodic[i];
    lfs_assert(x.Dimension == per[i].d, "periodic dimension");
    lfs_assert(x.ElementarySlaveNr == per[i].s, "periodic slave");
    lfs_assert(x.ElementaryMasterNr == per[i].m, "periodic master");
    lfs_assert(x.NodeMapping.size() == per[i].n.size(), "periodic nodes");
    for (size_t k = 0; k < per[i].n.size(); k++) {
      lfs_assert(x.NodeMapping[k].first == per[i].n[k].first, "periodic nodes");
      lfs_assert(x.NodeMapping[k].second == per[i].n[k].second, "periodic nodes");
    }
  }
}
LFS_CASE(v2_text) { v2(0); }
LFS_CASE(v2_little) { v2(1); }
LFS_CASE(v2_big) { v2(2); }

struct Ent { int tag, pd, pt; std::vector<int> parts; D3 a, b; std::vector<int> phys, bound; };
static std::vector<int> ivec(Emit& e, int n, bool neg = false) {
  std::vector<int> v;
  e.c8(n);
  for (int i = 0; i < n; i++) { e.sep(" "); v.push_back(e.i4(neg && i == n - 1)); }
  return v;
}
static Ent ent(Emit& e, bool point, bool partitioned, int k) {
  Ent x;
  x.tag = e.i4(); e.sep(" ");
  if (partitioned) { x.pd = e.i4(); e.sep(" "); x.pt = e.i4(); e.sep(" "); x.parts = ivec(e, 1 + k % 2); e.sep(" "); }
  x.a = e.vec3(); e.sep(" ");
  if (!point) { x.b = e.vec3(); e.sep(" "); }
  x.phys = ivec(e, k % 3);
  if (!point) { e.sep(" "); x.bound = ivec(e, (k + 1) % 3, true); }
  e.sep("\n");
  return x;
}
template <class A> static void sameEnt(const A& a, const std::vector<Ent>& b) {
  lfs_assert(a.size() == b.size(), "number of entities");
  for (size_t i = 0; i < a.size() && i < b.size(); i++) {
    lfs_assert(a[i].tag == b[i].tag, "tag of an entity");
    if constexpr (requires { a[i].parent_dim; }) {
      lfs_assert(a[i].parent_dim == b[i].pd, "parent dimension");
      lfs_assert(a[i].parent_tag == b[i].pt, "parent tag");
      ints(a[i].partitions, b[i].parts, "partitions of an entity");
    }
    ints(a[i].physical_tags, b[i].phys, "physical tags of an entity");
    if constexpr (requires { a[i].coord; }) eq(a[i].coord, b[i].a, "coordinates of a point entity");
    else {
      eq(a[i].min_coord, b[i].a, "bounding box of an entity");
      eq(a[i].max_coord, b[i].b, "bounding box of an entity");
      ints(a[i].bounding_entities, b[i].bound, "boundary of an entity");
    }
  }
}
static void v4(int mode) {
  Emit e{mode > 0, mode == 2};
  const int shape = lfs_choice("shape", 4), other = lfs_choice("other", 3), extra = (shape + other) % 4;
  e.lit("\n");
  e.other(other);
  Names nm = names(e, shape % 3);
  if (nm.dim.size()) e.other(other == 2 ? 1 : 0);
  const int cnt[4][4] = {{1, 1, 1, 0}, {0, 0, 1, 1}, {2, 0, 1, 0}, {0, 2, 0, 0}};
  const char* nl = "\n";
  auto entities = [&](bool part, std::vector<Ent>* r) {
    for (int d = 0; d < 4; d++) { e.c8(cnt[shape][d]); e.sep(d < 3 ? " " : nl); }
    for (int d = 0; d < 4; d++) for (int i = 0; i < cnt[shape][d]; i++) r[d].push_back(ent(e, d == 0, part, i + d + shape));
  };
  std::vector<Ent> en[4], pe[4];
  e.lit("$Entities\n");
  entities(false, en);
  if (e.bin) e.lit("\n");
  e.lit("$EndEntities\n");
  e.other(other == 1 ? 2 : 0);
  size_t npart = 0;
  std::vector<std::pair<int, int>> ghosts;
  if (extra % 2) {
    e.lit("$PartitionedEntities\n");
    npart = e.i8(); e.sep(nl);
    e.c8(shape % 3); e.sep(nl);
    for (int i = 0; i < shape % 3; i++) { const int a = e.i4(); e.sep(" "); const int b = e.i4(); e.sep(nl); ghosts.push_back({a, b}); }
    entities(true, pe);
    if (e.bin) e.lit("\n");
    e.lit("$EndPartitionedEntities\n");
    e.other(other == 2 ? 2 : 0);
  }
  // nodes
  const int nb = 1 + shape % 2;
  struct NB { int d, t; std::vector<size_t> nr; std::vector<D3> x; };
  std::vector<NB> nbs;
  e.lit("$Nodes\n");
  e.c8(nb); e.sep(" ");
  const size_t nnum = e.i8(); e.sep(" ");
  const size_t nmin = e.i8(); e.sep(" ");
  const size_t nmax = e.i8(); e.sep(nl);
  for (int b = 0; b < nb; b++) {
    NB x;
    x.d = e.i4(); e.sep(" ");
    x.t = e.i4(); e.sep(" ");
    e.c4(0); e.sep(" ");
    const int n = 2 - b;
    e.c8(n); e.sep(nl);
    for (int i = 0; i < n; i++) { x.nr.push_back(e.i8()); e.sep(nl); }
    for (int i = 0; i < n; i++) { x.x.push_back(e.vec3()); e.sep(nl); }
    nbs.push_back(x);
  }
  if (e.bin) e.lit("\n");
  e.lit("$EndNodes\n");
  e.other(other);
  // elements
  const int blocks[4][3][2] = {{{0, 1}, {2, 2}, {1, 2}}, {{3, 1}, {4, 1}, {5, 1}}, {{6, 1}, {7, 1}, {0, 1}}, {{8, 1}, {9, 1}, {10, 1}}};
  struct EB { int d, t, type; std::vector<size_t> nr; std::vector<std::vector<size_t>> n; };
  std::vector<EB> ebs;
  e.lit("$Elements\n");
  e.c8(3); e.sep(" ");
  const size_t enumb = e.i8(); e.sep(" ");
  const size_t emin = e.i8(); e.sep(" ");
  const size_t emax = e.i8(); e.sep(nl);
  for (auto& b : blocks[shape]) {
    EB x;
    x.d = e.i4(); e.sep(" ");
    x.t = e.i4(); e.sep(" ");
    x.type = ET[b[0]][0];
    e.c4(x.type); e.sep(" ");
    e.c8(b[1]); e.sep(nl);
    for (int i = 0; i < b[1]; i++) {
      x.nr.push_back(e.i8());
      x.n.emplace_back();
      for (int k = 0; k < ET[b[0]][1]; k++) { e.sep(" "); x.n.back().push_back(e.i8()); }
      e.sep(nl);
    }
    ebs.push_back(x);
  }
  if (e.bin) e.lit("\n");
  e.lit("$EndElements\n");
  e.other(other);
  struct PL { int d, s, m; std::vector<double> a; std::vector<std::pair<size_t, size_t>> n; };
  std::vector<PL> pls;
  struct GE { size_t el; int p; std::vector<int> g; };
  std::vector<GE> ges;
  if (extra >= 2) {
    e.lit("$Periodic\n");
    e.c8(2); e.sep(nl);
    for (int i = 0; i < 2; i++) {
      PL p;
      p.d = e.i4(); e.sep(" "); p.s = e.i4(); e.sep(" "); p.m = e.i4(true); e.sep(nl);
      if (i == shape % 2) { e.c8(16); for (int k = 0; k < 16; k++) { e.sep(" "); p.a.push_back(e.real()); } }
      else e.c8(0);
      e.sep(nl);
      e.c8(i + 1); e.sep(nl);
      for (int k = 0; k <= i; k++) { const size_t a = e.i8(); e.sep(" "); const size_t b = e.i8(); e.sep(nl); p.n.push_back({a, b}); }
      pls.push_back(p);
    }
    if (e.bin) e.lit("\n");
    e.lit("$EndPeriodic\n");
    e.other(other);
    if (extra == 3) {
      e.lit("$GhostElements\n");
      e.c8(2); e.sep(nl);
      for (int i = 0; i < 2; i++) {
        GE g;
        g.el = e.i8(); e.sep(" ");
        g.p = e.i4(); e.sep(" ");
        g.g = ivec(e, i * 2);
        e.sep(nl);
        ges.push_back(g);
      }
      if (e.bin) e.lit("\n");
      e.lit("$EndGhostElements\n");
    }
  }
  GMshFileV4 f = ReadGmshFileV4(e.s.cbegin(), e.s.cend(), "4.1", e.bin, 8, e.big ? 1 << 24 : 1, "f");
  lfs_assert(f.is_binary == e.bin && f.version_number == "4.1", "header");
  lfs_assert(f.physical_names.size() == nm.dim.size(), "number of physical names");
  for (size_t i = 0; i < nm.dim.size(); i++) {
    lfs_assert(f.physical_names[i].dimension == nm.dim[i], "dimension of a physical name");
    lfs_assert(f.physical_names[i].physical_tag == nm.nr[i], "number of a physical name");
    sameName(f.physical_names[i].name, nm.name[i]);
  }
  sameEnt(std::get<0>(f.entities), en[0]);
  sameEnt(std::get<1>(f.entities), en[1]);
  sameEnt(std::get<2>(f.entities), en[2]);
  sameEnt(std::get<3>(f.entities), en[3]);
  lfs_assert(f.partitioned_entities.num_partitions == npart, "number of partitions");
  auto& gh = f.partitioned_entities.ghost_entities;
  lfs_assert(gh.size() == ghosts.size(), "ghost entities");
  for (size_t i = 0; i < ghosts.size(); i++) { lfs_assert(gh[i].tag == ghosts[i].first, "ghost entity"); lfs_assert(gh[i].partition == ghosts[i].second, "partition of a ghost entity"); }
  auto& pn = f.partitioned_entities.partitioned_entities;
  sameEnt(std::get<0>(pn), pe[0]);
  sameEnt(std::get<1>(pn), pe[1]);
  sameEnt(std::get<2>(pn), pe[2]);
  sameEnt(std::get<3>(pn), pe[3]);
  lfs_assert(f.nodes.num_nodes == nnum, "number of nodes");
  lfs_assert(f.nodes.min_node_tag == nmin, "smallest node tag");
  lfs_assert(f.nodes.max_node_tag == nmax, "largest node tag");
  lfs_assert(f.nodes.node_blocks.size() == nbs.size(), "number of node blocks");
  for (size_t b = 0; b < nbs.size(); b++) {
    auto& x = f.nodes.node_blocks[b];
    lfs_assert(x.entity_dim == nbs[b].d, "dimension of a node block");
    lfs_assert(x.entity_tag == nbs[b].t, "tag of a node block");
    lfs_assert(!x.parametric, "node block without parameters");
    lfs_assert(x.nodes.size() == nbs[b].nr.size(), "size of a node block");
    for (size_t i = 0; i < nbs[b].nr.size(); i++) { lfs_assert(x.nodes[i].first == nbs[b].nr[i], "node tag"); eq(x.nodes[i].second, nbs[b].x[i], "node position"); }
  }
  lfs_assert(f.elements.num_elements == enumb, "number of elements");
  lfs_assert(f.elements.min_element_tag == emin, "smallest element tag");
  lfs_assert(f.elements.max_element_tag == emax, "largest element tag");
  lfs_assert(f.elements.element_blocks.size() == ebs.size(), "number of element blocks");
  for (size_t b = 0; b < ebs.size(); b++) {
    auto& x = f.elements.element_blocks[b];
    lfs_assert(x.dimension == ebs[b].d, "dimension of an element block");
    lfs_assert(x.entity_tag == ebs[b].t, "tag of an element block");
    lfs_assert((int)x.element_type == ebs[b].type, "type of an element block");
    lfs_assert(x.elements.size() == ebs[b].nr.size(), "size of an element block");
    for (size_t i = 0; i < ebs[b].nr.size(); i++) { lfs_assert(x.elements[i].first == ebs[b].nr[i], "element tag"); ints(x.elements[i].second, ebs[b].n[i], "nodes of an element"); }
  }
  lfs_assert(f.periodic_links.size() == pls.size(), "number of periodic links");
  for (size_t i = 0; i < pls.size(); i++) {
    auto& x = f.periodic_links[i];
    lfs_assert(x.dimension == pls[i].d, "dimension of a periodic link");
    lfs_assert(x.entity_tag_slave == pls[i].s, "slave of a periodic link");
    lfs_assert(x.entity_tag_master == pls[i].m, "master of a periodic link");
    lfs_assert(x.affine_transform.has_value() == (pls[i].a.size() == 16), "transformation of a periodic link");
    if (x.affine_transform && pls[i].a.size() == 16)
      for (int k = 0; k < 16; k++) lfs_near((*x.affine_transform)(k / 4, k % 4), pls[i].a[k], 1e-12, "transformations are stored row by row in the file");
    lfs_assert(x.node_mapping.size() == pls[i].n.size(), "nodes of a periodic link");
    for (size_t k = 0; k < pls[i].n.size(); k++) { lfs_assert(x.node_mapping[k].first == pls[i].n[k].first, "slave node"); lfs_assert(x.node_mapping[k].second == pls[i].n[k].second, "master node"); }
  }
  lfs_assert(f.ghost_elements.size() == ges.size(), "number of ghost elements");
  for (size_t i = 0; i < ges.size(); i++) {
    lfs_assert(f.ghost_elements[i].element_tag == ges[i].el, "ghost element");
    lfs_assert(f.ghost_elements[i].partition_tag == ges[i].p, "partition of a ghost element");
    ints(f.ghost_elements[i].ghost_partition_tags, ges[i].g, "ghost partitions");
  }
}
LFS_CASE(v4_text) { v4(0); }
LFS_CASE(v4_little) { v4(1); }
LFS_CASE(v4_big) { v4(2); }
